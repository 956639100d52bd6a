"""Expression evaluation and conditions.  Every method returns a list of
(state, ctl, value) with ctl 'v' (value), 'x' (exception) or 'g' (generator
unwinding)."""
import ast
from .terms import *
from .state import *
from . import builtins_model as bm


def bind(outs, f):
    res = []
    for s, c, v in outs:
        if c == 'v':
            res.extend(f(s, v))
        else:
            res.append((s, c, v))
    return res


def key_const(t):
    if is_k(t, 'str'):
        return K(t[2].lower())
    return t


class ExprMixin(object):

    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.note('expression %s not modelled (%s)' % (type(n).__name__, self.pos(n, '')))
            return [(st, 'v', ('ev', self.eid(n, type(n).__name__)))]
        return m(n, st)

    def eval_list(self, nodes, st):
        """-> [(st, ctl, [values])]"""
        outs = [(st, 'v', [])]
        for n in nodes:
            nxt = []
            for s, c, vs in outs:
                if c != 'v':
                    nxt.append((s, c, vs))
                    continue
                for s2, c2, v2 in self.eval(n, s):
                    nxt.append((s2, c2, vs + [v2]) if c2 == 'v' else (s2, c2, v2))
            outs = nxt
        return outs

    # -- simple
    def e_Constant(self, n, st):
        return [(st, 'v', K(n.value))]

    def e_Name(self, n, st):
        return [(st, 'v', self.lookup(st, n.id, n))]

    def e_Tuple(self, n, st):
        return bind(self._elts(n.elts, st), lambda s, vs: [(s, 'v', ('tup', tuple(vs)))])

    def _elts(self, elts, st):
        outs = [(st, 'v', [])]
        for e in elts:
            nxt = []
            for s, c, vs in outs:
                if c != 'v':
                    nxt.append((s, c, vs))
                    continue
                star = isinstance(e, ast.Starred)
                for s2, c2, v2 in self.eval(e.value if star else e, s):
                    if c2 != 'v':
                        nxt.append((s2, c2, v2))
                    elif star:
                        items = self.items_of(s2, v2)
                        nxt.append((s2, 'v', vs + (list(items) if items is not None else [('star', v2)])))
                    else:
                        nxt.append((s2, 'v', vs + [v2]))
            outs = nxt
        return outs

    def items_of(self, st, t):
        """known elements of a sequence term, or None"""
        if t[0] in ('tup', 'lst', 'set'):
            return None if any(x[0] == 'star' for x in t[1]) else t[1]
        if t[0] == 'dct':
            return tuple(k for k, v in t[1])
        if t[0] == 'obj':
            it = st.heap(t, '@items')
            if it is not None and it[0] in ('lst', 'tup', 'set'):
                return None if any(x[0] == 'star' for x in it[1]) else it[1]
            if it is not None and it[0] == 'dct':
                return tuple(k for k, v in it[1])
        if t[0] == 'op' and t[1] in ('list', 'tuple', 'iter') and len(t[2]) == 1:
            return self.items_of(st, t[2][0])
        if t[0] == 'op' and t[1] == 'reversed' and len(t[2]) == 1:
            r = self.items_of(st, t[2][0])
            return tuple(reversed(r)) if r is not None else None
        if t[0] == 'op' and t[1] == 'zip':
            cols = [self.items_of(st, x) for x in t[2]]
            if all(c is not None for c in cols):
                return tuple(('tup', x) for x in zip(*cols))
        if t[0] == 'op' and t[1] == 'enumerate':
            c = self.items_of(st, t[2][0])
            if c is not None:
                b = t[2][1] if len(t[2]) > 1 else K(0)
                return tuple(('tup', (lin_add(b, K(i)), x)) for i, x in enumerate(c))
        if t[0] == 'op' and t[1] == 'range' and all(is_k(x, 'int') for x in t[2]):
            r = range(*[x[2] for x in t[2]])
            if len(r) <= 12:
                return tuple(K(i) for i in r)
        if t[0] == 'm' and t[1] == 'items':
            d = self.dict_of(st, t[2])
            if d is not None:
                return tuple(('tup', p) for p in d)
        return None

    def dict_of(self, st, t):
        if t[0] == 'dct':
            return t[1]
        if t[0] == 'obj':
            it = st.heap(t, '@items')
            if it is not None and it[0] == 'dct':
                return it[1]
        return None

    def alloc(self, st, n, tag, cls=None, items=None):
        o = ('obj', self.eid(n, tag))
        s = self.forget(st, o)
        for k in list(s.store):
            if k[0] in ('h', 'hdr') and k[1] == o:
                del s.store[k]
        s.vers.pop(o, None)
        if cls:
            s.store[('h', o, '@class')] = ('cls', cls)
        if items is not None:
            s.store[('h', o, '@items')] = items
            s.store[('h', o, '@kind')] = K(tag)
        from .interp import Alloc
        s.trace = (s.trace, Alloc(o, items))
        return s, o

    def e_List(self, n, st):
        def k(s, vs):
            s, o = self.alloc(s, n, 'list', items=('lst', tuple(vs)))
            return [(s, 'v', o)]
        return bind(self._elts(n.elts, st), k)

    def e_Set(self, n, st):
        return bind(self._elts(n.elts, st), lambda s, vs: [(s, 'v', ('set', tuple(vs)))])

    def e_Dict(self, n, st):
        nodes = []
        for a, b in zip(n.keys, n.values):
            nodes += ([a] if a is not None else []) + [b]
        def k(s, vs):
            i = 0
            pairs = []
            for a, b in zip(n.keys, n.values):
                if a is None:
                    d = self.dict_of(s, vs[i])
                    i += 1
                    if d is None:
                        s2, o = self.alloc(s, n, 'dict', items=('ev', self.eid(n, 'dict')))
                        return [(s2, 'v', o)]
                    pairs = [p for p in pairs if p[0] not in [q[0] for q in d]] + list(d)
                else:
                    pairs = [p for p in pairs if p[0] != vs[i]]
                    pairs.append((vs[i], vs[i + 1]))
                    i += 2
            s2, o = self.alloc(s, n, 'dict', items=('dct', tuple(pairs)))
            return [(s2, 'v', o)]
        return bind(self.eval_list(nodes, st), k)

    def e_JoinedStr(self, n, st):
        outs = [(st, 'v', [])]
        for v in n.values:
            nxt = []
            for s, c, vs in outs:
                if c != 'v':
                    nxt.append((s, c, vs))
                elif isinstance(v, ast.Constant):
                    nxt.append((s, 'v', vs + [K(v.value)]))
                else:
                    for s2, c2, x in self.eval(v.value, s):
                        if c2 != 'v':
                            nxt.append((s2, c2, x))
                        else:
                            spec = ast.unparse(v.format_spec) if v.format_spec else ''
                            if spec or v.conversion not in (-1, 115):
                                x = ('op', 'fmt', (x, K(spec), K(v.conversion)))
                            else:
                                x = ('op', 'str', (x,))
                            nxt.append((s2, 'v', vs + [x]))
            outs = nxt
        return bind(outs, lambda s, vs: [(s, 'v', mk_cat(vs))])

    def e_Lambda(self, n, st):
        self.captured.add(self.fr.fid)
        return [(st, 'v', ('clo', n._fq, self.fr.fid))]

    def e_IfExp(self, n, st):
        def k(s, b):
            return self.eval(n.body if b else n.orelse, s)
        return bind(self.cond(n.test, st), k)

    def e_NamedExpr(self, n, st):
        return bind(self.eval(n.value, st),
                    lambda s, v: [(self.assign_name(s, n.target.id, v), 'v', v)])

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        outs = self.eval(n.values[0], st)
        for nxt in n.values[1:]:
            def k(s, v, nxt=nxt):
                if isinstance(v, tuple) and v and v[0] == '@done':
                    return [(s, 'v', v)]
                res = []
                for s2, b in self.truth(s, v):
                    if b == isand:
                        res.extend(self.eval(nxt, s2))
                    else:
                        res.append((s2, 'v', ('@done', v)))
                return res
            outs = bind(outs, k)
        return [(s, c, v[1] if c == 'v' and v[0] == '@done' else v) for s, c, v in outs]

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return bind(self.cond(n.operand, st), lambda s, b: [(s, 'v', K(not b))])
        def k(s, v):
            if isinstance(n.op, ast.USub):
                if is_k(v, 'int', 'float'):
                    return [(s, 'v', K(-v[2]))]
                return [(s, 'v', lin_scale(v, -1))]
            if isinstance(n.op, ast.UAdd):
                return [(s, 'v', v)]
            return [(s, 'v', ('op', 'invert', (v,)))]
        return bind(self.eval(n.operand, st), k)

    def e_Compare(self, n, st):
        return bind(self.cond(n, st), lambda s, b: [(s, 'v', K(b))])

    def e_BinOp(self, n, st):
        def k(s, vs):
            bad = []
            for x in vs:
                s, b = self.hazard(s, x, n, 'TypeError')
                bad = bad + b
                if s is None:
                    return bad
            return bad + [(s, 'v', self.binop(n.op, vs[0], vs[1], s))]
        return bind(self.eval_list([n.left, n.right], st), k)

    def binop(self, op, a, b, st):
        if isinstance(op, ast.Add):
            ia, ib = self.items_of(st, a), self.items_of(st, b)
            if ia is not None and ib is not None:
                return ('lst', tuple(ia) + tuple(ib))
            if self.evtype.get(a) == 'bytes' or self.evtype.get(b) == 'bytes':
                return mk_cat([a, b])
            return mk_add(a, b)
        if isinstance(op, ast.Sub):
            if is_k(a, 'int') or is_k(b, 'int') or True:
                return lin_add(a, b, -1)
        if is_k(a) and is_k(b):
            v = bm.fold_binop(op, a[2], b[2])
            if v is not None:
                return K(v)
        if isinstance(op, ast.Mult):
            if is_k(a, 'int') and ttype(b) not in ('str', 'bytes', 'str?', 'list'):
                return lin_scale(b, a[2])
            if is_k(b, 'int') and ttype(a) not in ('str', 'bytes', 'str?', 'list'):
                return lin_scale(a, b[2])
        if isinstance(op, ast.Mod) and is_k(a, 'str', 'bytes'):
            args = b[1] if b[0] == 'tup' else (b,)
            ps = bm.parse_percent(a[2], args)
            for k in () if ps is not None or b[0] in ('tup', 'k', 'cat', 'fmt', 'dct', 'lst') else range(2, 9):
                # '%s: %s' % pair: more than one place takes a tuple of as many
                ps = ps or bm.parse_percent(a[2], tuple(('idx', b, K(i)) for i in range(k)))
            if ps is not None:
                return mk_cat(ps)
        return ('op', type(op).__name__, (a, b))

    def e_Attribute(self, n, st):
        def k(s, v):
            s, bad = self.hazard(s, v, n, 'AttributeError')
            return bad if s is None else bad + self.getattr(s, v, n.attr, n)
        return bind(self.eval(n.value, st), k)

    def e_Subscript(self, n, st):
        if isinstance(n.slice, ast.Slice):
            sl = n.slice
            parts = [x if x is not None else ast.Constant(value=None) for x in (sl.lower, sl.upper, sl.step)]
            def k(s, vs):
                s, bad = self.hazard(s, vs[0], n, 'TypeError')
                return bad if s is None else bad + [(s, 'v', self.mk_slice(s, vs[0], vs[1], vs[2], vs[3]))]
            return bind(self.eval_list([n.value] + parts, st), k)

        def k1(s, vs):
            s, bad = self.hazard(s, vs[0], n, 'TypeError')
            return bad if s is None else bad + self.getitem(s, vs[0], vs[1], n)
        return bind(self.eval_list([n.value, n.slice], st), k1)

    def mk_slice(self, st, v, lo, hi, step):
        if is_k(v, 'str', 'bytes') and all(is_k(x, 'int', 'NoneType') for x in (lo, hi, step)):
            try:
                return K(v[2][lo[2]:hi[2]:step[2]])
            except Exception:
                pass
        items = self.items_of(st, v)
        if items is not None and all(is_k(x, 'int', 'NoneType') for x in (lo, hi, step)):
            return ('lst' if v[0] != 'tup' else 'tup', tuple(items[lo[2]:hi[2]:step[2]]))
        if lo in (NONE, ZERO) and hi == NONE and step == NONE:
            return v
        if lo == ZERO:
            lo = NONE
        return ('slice', v, lo, hi, step)

    def getitem(self, st, v, i, n):
        items = self.items_of(st, v) if v[0] != 'dct' else None
        d = self.dict_of(st, v)
        if items is not None and d is None and is_k(i, 'int', 'bool'):
            try:
                return [(st, 'v', items[i[2]])]
            except IndexError:
                return [(st, 'x', ('exc', ('IndexError',), self.eid(n, 'item')))]
        if d is not None:
            for a, b in d:
                if a == i:
                    return [(st, 'v', b)]
            if is_k(i) and all(is_k(a) for a, b in d):
                return [(st, 'x', ('exc', ('KeyError',), self.eid(n, 'item')))]
        if is_k(v, 'str', 'bytes') and is_k(i, 'int'):
            try:
                return [(st, 'v', K(v[2][i[2]]))]
            except IndexError:
                return [(st, 'x', ('exc', ('IndexError',), self.eid(n, 'item')))]
        cls = self.type_of(st, v)
        if cls and (self.prog.lookup(cls, '__getitem__') or ('', ))[0] == 'fn':
            return self.call_method(st, v, '__getitem__', [i], {}, n)
        outs = []
        if self.cfg.hazards is not None:
            if d is not None:
                outs.append(self.fails(st, v, n, 'KeyError'))
            elif is_k(i, 'int') and self.short(st, v, i[2] + 1 if i[2] >= 0 else -i[2], False):
                outs.append(self.fails(st, v, n, 'IndexError'))
        elif (self.try_depth or self.cfg.all_raises or self.cfg.known_raises) and self.cfg.raise_pred is None:
            outs.append((st, 'x', ('exc', ('KeyError', 'IndexError', 'TypeError'), self.eid(n, 'item'))))
        if is_k(i, 'str') or (cls and v[0] != 'op'):
            outs.append((st, 'v', self.observe(st, v, i)))
        elif i[0] == 'k' and i[1] == 'int':
            outs.append((st, 'v', ('idx', v, i)))
        elif self.mutable(v):
            outs.append((st, 'v', ('obs', 'item', v, (i,), st.vers.get(v, 0))))
        else:
            outs.append((st, 'v', ('idx', v, i)))
        return outs

    def mutable(self, v):
        return v[0] in ('sym', 'fld', 'ev', 'obj', 'phi', 'old')

    def observe(self, st, recv, key, name='get'):
        """value of a header / mapping lookup"""
        k = key_const(key)
        t = st.store.get(('hdr', recv, k))
        if t is not None:
            return t
        ver = st.vers.get(recv, 0)
        kv = st.vers.get((recv, k), 0)
        return ('obs', name, recv, (k,), (ver, kv) if (ver or kv) else 0)

    # -- comprehensions
    def _comp(self, n, st, kind):
        gens = n.generators
        fr = self.fr
        elt_nodes = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
        # single generator over known items without conditions: unroll
        outs = self.eval(gens[0].iter, st)
        def k(s, it):
            items = self.items_of(s, it)
            names = [x.id for g in gens for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            added = [x for x in names if x not in fr.func.locals_]
            fr.func.locals_.update(added)
            saved = {x: s.store.get(('l', fr.fid, x)) for x in names}
            try:
                if items is not None and len(gens) == 1 and len(items) <= 16 and not gens[0].ifs and not isinstance(n, ast.DictComp):
                    res = [(s, 'v', [])]
                    for idx, x in enumerate(items):
                        old = self.stack
                        self.stack = old + ('#%d' % idx,)
                        nxt = []
                        for s2, c2, vs in res:
                            if c2 != 'v':
                                nxt.append((s2, c2, vs))
                                continue
                            for s3 in self.assign(s2, gens[0].target, x, n):
                                for s4, c4, v4 in self.eval(n.elt, s3):
                                    nxt.append((s4, c4, vs + [v4] if c4 == 'v' else v4))
                        res = nxt
                        self.stack = old
                    out = []
                    for s2, c2, vs in res:
                        s2 = self._restore(s2, fr.fid, saved)
                        out.append((s2, c2, ('lst', tuple(vs)) if c2 == 'v' else vs))
                    return out
                # generic element
                s2 = s
                el = ('item', it)
                ok = True
                conds = []
                for gi, g in enumerate(gens):
                    if gi:
                        r = self.eval(g.iter, s2)
                        r = [x for x in r if x[1] == 'v']
                        if len(r) != 1:
                            ok = False
                            break
                        s2, el = r[0][0], ('item', r[0][2])
                    a = self.assign(s2, g.target, el, n)
                    if len(a) != 1:
                        ok = False
                        break
                    s2 = a[0]
                    conds += [ast.dump(c) for c in g.ifs]
                vals = []
                if ok:
                    for e in elt_nodes:
                        r = [x for x in self.eval(e, s2) if x[1] == 'v']
                        if len(r) != 1:
                            vals.append(('alt', tuple(sorted(set(x[2] for x in r), key=repr))))
                            if r:
                                s2 = r[0][0]
                        else:
                            s2 = r[0][0]
                            vals.append(r[0][2])
                else:
                    vals = [('ev', self.eid(n, kind))]
                cterms = []
                if ok:
                    for g in gens:
                        for c in g.ifs:
                            r = [x for x in self.eval(c, s2) if x[1] == 'v']
                            cterms.append(r[0][2] if len(r) == 1 else ('condsrc', ast.unparse(c)))
                s2 = self._restore(s2, fr.fid, saved)
                return [(s2, 'v', ('op', kind, tuple(vals) + (it, ('tup', tuple(cterms)))))]
            finally:
                fr.func.locals_.difference_update(added)
        return bind(outs, k)

    def _restore(self, s, fid, saved):
        s = s.copy()
        for x, v in saved.items():
            if v is None:
                s.store.pop(('l', fid, x), None)
            else:
                s.store[('l', fid, x)] = v
        return s

    def e_ListComp(self, n, st):
        return self._comp(n, st, 'listcomp')

    def e_SetComp(self, n, st):
        return self._comp(n, st, 'setcomp')

    def e_GeneratorExp(self, n, st):
        return self._comp(n, st, 'genexp')

    def e_DictComp(self, n, st):
        return self._comp(n, st, 'dictcomp')

    def e_Yield(self, n, st):
        outs = self.eval(n.value, st) if n.value is not None else [(st, 'v', NONE)]
        return bind(outs, lambda s, v: self.do_yield(s, v, n))

    def e_YieldFrom(self, n, st):
        def k(s, v):
            def body(s2, x):
                return [(s3, 'n' if c == 'v' else c, y) for s3, c, y in self.do_yield(s2, x, n)]
            outs = self.iterate_over(s, v, n, body)
            return [(s2, 'v' if c == 'n' else c, NONE if c == 'n' else x) for s2, c, x in outs]
        return bind(self.eval(n.value, st), k)

    def do_yield(self, st, v, n):
        fr = self.fr
        if fr.on_yield is not None:
            return fr.on_yield(st, v)
        outs = []
        eid = self.eid(n, 'yield')
        s = self.emit(st, 'yield', 'yield', None, [v], {}, n, eid=eid, result=('ev', eid))
        if self.cfg.yield_raises:
            outs.append((s, 'x', ('exc', None, eid)))
        outs.append((s, 'v', ('ev', eid)))
        return outs

    # ------------------------------------------------------------------ conditions
    def cond(self, n, st):
        """-> [(st, 'v', bool) | exceptions]"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            outs = [(st, 'v', isand)]
            for x in n.values:
                def k(s, b, x=x):
                    if b != isand:
                        return [(s, 'v', b)]
                    return self.cond(x, s)
                outs = bind(outs, k)
            return outs
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return bind(self.cond(n.operand, st), lambda s, b: [(s, 'v', not b)])
        if isinstance(n, ast.Compare):
            def k(s, vs):
                bad = []
                if self.cfg.hazards is not None:
                    for i, op in enumerate(n.ops):
                        for x in ([vs[i + 1]] if isinstance(op, (ast.In, ast.NotIn)) else vs[i:i + 2] if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) else []):
                            s, b = self.hazard(s, x, n, 'TypeError')
                            bad = bad + b
                            if s is None:
                                return bad
                outs = [(s, True)]
                for i, op in enumerate(n.ops):
                    nxt = []
                    for s2, b in outs:
                        if not b:
                            nxt.append((s2, False))
                        else:
                            nxt.extend(self.compare(s2, op, vs[i], vs[i + 1], n))
                    outs = nxt
                return bad + [(s2, 'v', b) for s2, b in outs]
            return bind(self.eval_list([n.left] + n.comparators, st), k)
        return bind(self.eval(n, st), lambda s, v: [(s2, 'v', b) for s2, b in self.truth(s, v)])

    def truth(self, st, t):
        if t[0] == 'alt':
            pass
        if t[0] == 'op' and t[1] == 'unbound':
            self.note('unbound local %s' % t[2][0][2])
        if t[0] == 'obj':
            cls = self.type_of(st, t)
        n = st.nullness(t)
        if n == T_:
            return [(st, True)]
        if not (n & T_):
            return [(st, False)]
        # boolean atoms get a literal of their own
        out = []
        if t[0] == 'm' and t[1] in BOOL_METHODS or t[0] == 'op' and t[1] in ('isinstance', 'hasattr', 'any', 'all'):
            return self.branch_lit(st, ('cond', t))
        s1 = st.set_null(t, T_)
        if s1 is not None:
            out.append((s1, True))
        s2 = st.set_null(t, NE)
        if s2 is not None:
            out.append((s2, False))
        return out

    def branch_lit(self, st, atom):
        out = []
        for v in (True, False):
            s = st.lit(atom, v)
            if s is None:
                continue
            if v and atom[0] == 'cond' and atom[1][0] == 'm' and atom[1][1] in ('startswith', 'endswith'):
                a = atom[1][3]
                if a and s.nullness(a[0]) == T_:
                    s = s.set_null(atom[1][2], T_)
                    if s is None:
                        continue
            out.append((s, v))
        return out

    def compare(self, st, op, a, b, node=None):
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            outs = self.equal(st, a, b, isinstance(op, (ast.Is, ast.IsNot)), node)
        elif isinstance(op, (ast.In, ast.NotIn)):
            outs = self.member(st, a, b, node)
        elif isinstance(op, ast.Lt):
            outs = self.less(st, a, b, True)
        elif isinstance(op, ast.LtE):
            outs = self.less(st, a, b, False)
        elif isinstance(op, ast.Gt):
            outs = self.less(st, b, a, True)
        else:
            outs = self.less(st, b, a, False)
        if neg:
            outs = [(s, not v) for s, v in outs]
        return outs

    def by_null(self, st, t, yes):
        out = []
        s = st.set_null(t, yes)
        if s is not None:
            out.append((s, True))
        s = st.set_null(t, NET - yes)
        if s is not None:
            out.append((s, False))
        return out

    def equal(self, st, a, b, ident=False, node=None):
        if is_k(a) and not is_k(b):
            a, b = b, a
        if a == b and not (a[0] == 'ev'):
            return [(st, True)]
        if is_k(a) and is_k(b):
            return [(st, (a[2] is b[2] if ident and (a[2] is None or b[2] is None) else a[2] == b[2]))]
        if is_k(b, 'NoneType'):
            return self.by_null(st, a, N_)
        if a[0] in ('cls', 'fn') and b[0] in ('cls', 'fn', 'k') or b[0] in ('cls', 'fn') and is_k(a):
            return [(st, False)]
        # sequences of known shape
        ia, ib = self.items_of(st, a), self.items_of(st, b)
        if ia is not None and ib is not None and a[0] != 'dct' and b[0] != 'dct':
            if len(ia) != len(ib):
                return [(st, False)]
            outs = [(st, True)]
            for x, y in zip(ia, ib):
                nxt = []
                for s, v in outs:
                    nxt.extend(self.equal(s, x, y) if v else [(s, v)])
                outs = nxt
            return outs
        if is_k(b):
            v = b[2]
            if not v:
                if v is False and not ident and ttype(a) != 'bool' or v is False and ident:
                    at = ('eq', a, b)
                    n = st.nullness(a)
                    if not (n & E_):
                        return [(st, False)]
                    if ttype(a) == 'bool':
                        return self.by_null(st, a, E_)
                    out = []
                    cur = st.lits.get(at)
                    if cur is not False:
                        s = st.set_null(a, E_)
                        s = s.lit(at, True) if s is not None else None
                        if s is not None:
                            out.append((s, True))
                    if cur is not True:
                        s = st.lit(at, False)
                        if s is not None:
                            out.append((s, False))
                    return out
                tt = ttype(a)
                if isinstance(v, (str, bytes)) and tt in ('int', 'bool', 'list', 'tuple', 'none'):
                    return [(st, False)]
                if isinstance(v, int) and tt in ('str', 'bytes', 'list', 'tuple', 'none'):
                    return [(st, False)]
                return self.by_null(st, a, E_)
            if v is True and ttype(a) == 'bool':
                return self.truth(st, a)
            if isinstance(v, int) and not isinstance(v, bool) or ttype(a) == 'int' and isinstance(v, int):
                if a[0] in ('lin', 'len') or ttype(a) == 'int':
                    d = lin_add(a, b, -1)
                    if st.prove_le(d) and st.prove_le(lin_scale(d, -1)):
                        return [(st, True)]
                    if st.prove_le(lin_add(d, K(1))) or st.prove_le(lin_add(K(1), d, -1)):
                        return [(st, False)]
            # non-empty constant
            at = ('eq', a, b)
            cur = st.lits.get(at)
            if cur is not None:
                return [(st, cur)]
            if 'T' not in st.nullness(a):
                return [(st, False)]
            for (x, val) in st.lits.items():
                if val and x[0] == 'eq' and x[1] == a and is_k(x[2]) and x[2] != b and x[2][2] != v:
                    return [(st, False)]
            # constant-string clash with a known prefix/suffix
            if isinstance(v, (str, bytes)):
                for (x, val) in st.lits.items():
                    if x[0] == 'cond' and x[1][0] == 'm' and x[1][2] == a and x[1][1] in ('startswith', 'endswith') and len(x[1][3]) == 1:
                        arg = x[1][3][0]
                        vals = None
                        if is_k(arg, 'str', 'bytes'):
                            vals = arg[2]
                        elif arg[0] == 'tup' and all(is_k(y, 'str', 'bytes') for y in arg[1]):
                            vals = tuple(y[2] for y in arg[1])
                        if vals is not None:
                            try:
                                if getattr(v, x[1][1])(vals) != val:
                                    return [(st, False)]
                            except TypeError:
                                pass
                if ttype(a) in ('int', 'none', 'bool', 'list', 'tuple'):
                    return [(st, False)]
                if ttype(a) in BYTESY and ttype(a) != type(v).__name__:
                    return [(st, False)]
                if a[0] in ('cat',):
                    parts = a[1]
                    if is_k(parts[0]) and not v.startswith(parts[0][2][:len(v)] if type(parts[0][2]) is type(v) else v[:0]):
                        return [(st, False)]
            out = []
            s = st.lit(at, True)
            s = s.set_null(a, T_) if s is not None else None
            if s is not None:
                out.append((s, True))
            s = st.lit(at, False)
            if s is not None:
                out.append((s, False))
            return out
        # two unknown terms
        if ttype(a) == 'int' or ttype(b) == 'int':
            d = lin_add(a, b, -1)
            if is_k(d):
                return [(st, d[2] == 0)]
            if st.prove_le(lin_add(d, K(1))) or st.prove_le(lin_add(K(1), d, -1)):
                return [(st, False)]
            if st.prove_le(d) and st.prove_le(lin_scale(d, -1)):
                return [(st, True)]
            return self.by_null(st, d, E_)
        na, nb = st.nullness(a), st.nullness(b)
        if not (na & nb):
            return [(st, False)]
        x, y = sorted((a, b), key=repr)
        return self.branch_lit(st, ('eq', x, y))

    def member(self, st, a, b, node=None):
        items = None
        if b[0] in ('tup', 'lst', 'set', 'obj', 'dct'):
            items = self.items_of(st, b)
        if b[0] == 'op' and b[1] == 'keys' or b[0] == 'm' and b[1] == 'keys':
            d = self.dict_of(st, b[2][0] if b[0] == 'op' else b[2])
            if d is not None:
                items = tuple(k for k, v in d)
        if items is not None and len(items) <= 24:
            outs = []
            cur = [st]
            for x in items:
                nxt = []
                for s in cur:
                    for s2, v in self.equal(s, a, x):
                        if v:
                            outs.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return outs + [(s, False) for s in cur]
        if is_k(a, 'str', 'bytes') and is_k(b, 'str', 'bytes'):
            try:
                return [(st, a[2] in b[2])]
            except TypeError:
                return [(st, False)]
        if b[0] == 'm' and b[1] == 'keys':
            b = b[2]
        cls = self.type_of(st, b)
        if cls and (self.prog.lookup(cls, '__contains__') or ('',))[0] == 'fn':
            t = self.observe(st, b, a)
            return self.truth(st, t)
        if self.mutable(b):
            t = ('obs', 'in', b, (key_const(a) if b[0] != 'sym' else a,), st.vers.get(b, 0))
            return self.truth(st, t)
        return self.branch_lit(st, ('cond', ('op', 'in', (a, b))))

    def less(self, st, a, b, strict):
        """a < b (strict) or a <= b"""
        if is_k(a) and is_k(b):
            try:
                return [(st, a[2] < b[2] if strict else a[2] <= b[2])]
            except TypeError:
                return [(st, False)]
        if any(ttype(x) in ('str', 'bytes', 'str?', 'tuple', 'list', 'float') for x in (a, b)):
            if strict:
                return [(s, not v) for s, v in self.branch_lit(st, ('le', b, a))]
            return self.branch_lit(st, ('le', a, b))
        d = lin_add(a, b, -1)
        if strict:
            d = lin_add(d, K(1))
        if st.prove_le(d):
            return [(st, True)]
        nd = lin_add(K(1), d, -1)
        if st.prove_le(nd):
            return [(st, False)]
        out = []
        s = st.assume_le(d)
        if s is not None:
            s = self.tighten(s, a, b, strict)
        if s is not None:
            out.append((s, True))
        s = st.assume_le(nd)
        if s is not None:
            s = self.tighten(s, b, a, not strict)
        if s is not None:
            out.append((s, False))
        return out

    def tighten(self, s, a, b, strict):
        """a < b or a <= b just assumed: derive nullness when one side is 0 / a non-negative"""
        d = lin_add(a, b, -1)
        # strict inequality means the difference is not zero
        for t in ([a, b] if True else []):
            if is_k(t) or t[0] in ('lin',):
                continue
            # t >= 1  or t <= -1  -> truthy ; t <= 0 and t >= 0 -> E
            if s.prove_le(lin_add(K(1), t, -1), 1) or s.prove_le(lin_add(t, K(1)), 1):
                r = s.set_null(t, T_)
                if r is None:
                    return None
                s = r
            elif s.prove_le(t, 1) and s.prove_le(lin_scale(t, -1), 1):
                r = s.set_null(t, E_)
                if r is None:
                    return None
                s = r
            else:
                r = s.set_null(t, ET)      # an ordered comparison needs a number
                if r is None:
                    return None
                s = r
        return s
