"""Statements, loops (fixpoint over abstract loop heads), try/with, generators.

Statement outcomes: (state, ctl, value), ctl in
  'n' normal, 'b' break, 'c' continue, 'r' return, 'x' exception,
  'g' unwinding a generator (value = (token, ctl, value))"""
import ast
from .terms import *
from .state import *
from .exprs import bind, key_const


# other names of the same exception
ALIASES = {x: 'OSError' for x in ('IOError', 'EnvironmentError', 'socket.error', 'select.error', 'os.error')}


class StmtMixin(object):

    def exec_block(self, stmts, st):
        from .interp import Undecided
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for s2, c, v in self.exec(s, x):
                    if c == 'n':
                        nxt.append(s2)
                    else:
                        done.append((s2, c, v))
            cur = self.dedupe(nxt)
            self.nstates += len(cur)
            if len(cur) > self.cfg.max_states or self.nstates > self.cfg.max_states * 60:
                raise Undecided('too many abstract states at %s' % self.pos(s, ''))
            if not cur:
                break
        return done + [(x, 'n', None) for x in cur]

    def dedupe(self, sts):
        if len(sts) < 2:
            return sts
        seen = {}
        out = []
        for s in sts:
            k = (id(s.trace[1]) if s.trace else 0, s.key())
            if k not in seen:
                seen[k] = 1
                out.append(s)
        return out

    def exec(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.note('statement %s not modelled (%s)' % (type(n).__name__, self.pos(n, '')))
            return [(st, 'n', None)]
        return m(n, st)

    def seq(self, outs, f):
        """expression outcomes -> statement outcomes"""
        res = []
        for s, c, v in outs:
            if c == 'v':
                res.extend(f(s, v))
            else:
                res.append((s, c, v))
        return res

    # -- simple
    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, 'n', None)]
        return self.seq(self.eval(n.value, st), lambda s, v: [(s, 'n', None)])

    def s_Pass(self, n, st):
        return [(st, 'n', None)]

    s_Import = s_Pass
    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_ImportFrom(self, n, st):
        s = st
        for a in n.names:
            r = self.prog.resolve_dotted((n.module or '') + '.' + a.name)
            if r[0] == 'expr':
                r = self.const_expr(r[1], r[2], r[3])
            s = self.assign_name(s, a.asname or a.name, r)
        return [(s, 'n', None)]

    def s_Import(self, n, st):
        s = st
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            s = self.assign_name(s, nm, self.prog.resolve_dotted(a.name if a.asname else nm))
        return [(s, 'n', None)]

    def s_FunctionDef(self, n, st):
        self.captured.add(self.fr.fid)
        return [(self.assign_name(st, n.name, ('clo', n._fq, self.fr.fid)), 'n', None)]

    def s_ClassDef(self, n, st):
        return [(self.assign_name(st, n.name, ('cls', getattr(n, '_cq', n.name))), 'n', None)]

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, 'r', NONE)]
        return self.seq(self.eval(n.value, st), lambda s, v: [(s, 'r', v)])

    def s_Break(self, n, st):
        return [(st, 'b', None)]

    def s_Continue(self, n, st):
        return [(st, 'c', None)]

    def s_Raise(self, n, st):
        if n.exc is None:
            cur = self.handling[-1] if self.handling else ('exc', None, self.eid(n, 'raise'))
            s = self.emit(st, 'raise', 'reraise', None, [cur], {}, n)
            return [(s, 'x', cur)]

        def k(s, v):
            def go(s2, e):
                s3 = self.emit(s2, 'raise', 'raise', None, [e], {}, n)
                return [(s3, 'x', e)]
            if v[0] == 'cls':
                return [y for s2, c, o in self.construct(s, v[1], [], {}, n) for y in
                        (go(s2, o) if c == 'v' else [(s2, c, o)])]
            if v[0] == 'ext':
                return go(s, ('exc', (v[1],), self.eid(n, 'raise')))
            return go(s, v)
        return self.seq(self.eval(n.exc, st), k)

    def s_Assert(self, n, st):
        def k(s, b):
            if b:
                return [(s, 'n', None)]
            eid = self.eid(n, 'assert')
            s2 = self.emit(s, 'raise', 'assert', None, [], {}, n)
            return [(s2, 'x', ('exc', ('AssertionError',), eid))]
        return self.seq(self.cond(n.test, st), k)

    def s_Delete(self, n, st):
        cur = [(st, 'n', None)]
        for t in n.targets:
            nxt = []
            for s, c, v in cur:
                if c != 'n':
                    nxt.append((s, c, v))
                    continue
                if isinstance(t, ast.Name):
                    s = s.copy()
                    s.store.pop(('l', self.fr.fid, t.id), None)
                    nxt.append((s, 'n', None))
                elif isinstance(t, ast.Subscript):
                    def k(s2, vs):
                        o, i = vs
                        d = self.dict_of(s2, o)
                        if o[0] == 'obj' and d is not None:
                            s3 = s2.copy()
                            s3.store[('h', o, '@items')] = ('dct', tuple(p for p in d if p[0] != i))
                            return [(s3, 'n', None)]
                        s3 = self.emit(s2, 'delitem', 'delitem', o, [i], {}, n)
                        s3 = s3.copy()
                        k2 = key_const(i)
                        if is_k(k2):
                            s3.store[('hdr', o, k2)] = NONE
                        else:
                            s3.vers[o] = self.eid(n, 'del')
                        return [(s3, 'n', None)]
                    sl = t.slice if not isinstance(t.slice, ast.Slice) else ast.Constant(value=None)
                    nxt.extend(self.seq(self.eval_list([t.value, sl], s), k))
                elif isinstance(t, ast.Attribute):
                    def k2(s2, o):
                        s3 = self.emit(s2, 'delattr', t.attr, o, [], {}, n)
                        s3.store.pop(('h', o, t.attr), None)
                        s3.vers[o] = self.eid(n, 'delattr')
                        return [(s3, 'n', None)]
                    nxt.extend(self.seq(self.eval(t.value, s), k2))
                else:
                    nxt.append((s, 'n', None))
            cur = nxt
        return cur

    # -- assignment
    def assign_name(self, st, name, v):
        fr = self.fr
        fid, func = fr.fid, fr.func
        if name in func.nonlocals:
            o = self.outer_of.get(fid)
            while o is not None:
                if name in o[1].locals_:
                    return st.set(('l', o[0], name), v)
                o = self.outer_of.get(o[0])
        return st.set(('l', fid, name), v)

    def assign(self, st, target, v, n):
        """-> list of states (exceptions inside targets are not modelled)"""
        if isinstance(target, ast.Name):
            return [self.assign_name(st, target.id, v)]
        if isinstance(target, (ast.Tuple, ast.List)):
            items = self.items_of(st, v)
            elts = target.elts
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            vals = []
            if items is None and self.short(st, v, len(elts) - len(star), not star):
                self.pending_exc.append(self.fails(st, v, n, 'ValueError'))
            if star:
                i = star[0]
                after = len(elts) - i - 1
                if items is not None and len(items) >= len(elts) - 1:
                    vals = list(items[:i]) + [('lst', tuple(items[i:len(items) - after]))] + list(items[len(items) - after:])
                else:
                    vals = [('idx', v, K(j)) for j in range(i)] + [('slice', v, K(i), NONE, NONE)] + \
                           [('idx', v, K(j - len(elts))) for j in range(i + 1, len(elts))]
                elts = [e.value if isinstance(e, ast.Starred) else e for e in elts]
            elif items is not None and len(items) == len(elts):
                vals = list(items)
            else:
                vals = [('idx', v, K(i)) for i in range(len(elts))]
            cur = [st]
            for e, x in zip(elts, vals):
                cur = [s2 for s in cur for s2 in self.assign(s, e, x, n)]
            return cur
        if isinstance(target, ast.Attribute):
            out = []
            for s, c, o in self.eval(target.value, st):
                if c == 'v':
                    for s2, c2, _ in self.setattr(s, o, target.attr, v, target):
                        if c2 == 'v':
                            out.append(s2)
                        else:
                            self.pending_exc.append((s2, c2, _))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            if isinstance(target.slice, ast.Slice):
                for s, c, o in self.eval(target.value, st):
                    if c == 'v':
                        s = self.emit(s, 'setitem', 'setslice', o, [v], {}, target)
                        out.append(self.bump(s, [o], self.eid(target, 'setslice')))
                return out
            for s, c, vs in self.eval_list([target.value, target.slice], st):
                if c != 'v':
                    continue
                o, i = vs
                out.extend(self.setitem(s, o, i, v, target))
            return out
        if isinstance(target, ast.Starred):
            return self.assign(st, target.value, v, n)
        self.note('assignment target %s not modelled' % type(target).__name__)
        return [st]

    def setitem(self, s, o, i, v, n):
        if o[0] == 'obj' and s.heap(o, '@kind') is not None:
            it = s.heap(o, '@items')
            s = self.emit(s, 'setitem', 'setitem', o, [i, v], {}, n)
            if it[0] == 'dct':
                pairs = list(it[1])
                if any(a == i for a, b in pairs):
                    pairs = [(a, v if a == i else b) for a, b in pairs]
                elif is_k(i) and all(is_k(a) for a, b in pairs):
                    pairs.append((i, v))
                else:
                    s.store[('h', o, '@items')] = ('ev', self.eid(n, 'setitem'))
                    return [s]
                s.store[('h', o, '@items')] = ('dct', tuple(pairs))
                return [s]
            if it[0] == 'lst' and is_k(i, 'int') and -len(it[1]) <= i[2] < len(it[1]) and not any(x[0] == 'star' for x in it[1]):
                l = list(it[1])
                l[i[2]] = v
                s.store[('h', o, '@items')] = ('lst', tuple(l))
                return [s]
            if is_k(i, 'str'):
                s.store[('hdr', o, key_const(i))] = v
                return [s]
            s.store[('h', o, '@items')] = ('ev', self.eid(n, 'setitem'))
            return [s]
        cls = self.type_of(s, o)
        if cls and (self.prog.lookup(cls, '__setitem__') or ('',))[0] == 'fn':
            return [s2 for s2, c, _ in self.call_method(s, o, '__setitem__', [i, v], {}, n) if c == 'v']
        s = self.emit(s, 'setitem', 'setitem', o, [i, v], {}, n)
        if is_k(i, 'str'):
            return [self.hdr_set(s, o, i, v)]
        return [self.bump(s, [o], self.eid(n, 'setitem'))]

    def _flush_pending(self):
        p, self.pending_exc = self.pending_exc, []
        return p

    def s_Assign(self, n, st):
        def k(s, v):
            cur = [s]
            for t in n.targets:
                cur = [s3 for s2 in cur for s3 in self.assign(s2, t, v, n)]
            return [(s2, 'n', None) for s2 in cur] + self._flush_pending()
        return self.seq(self.eval(n.value, st), k)

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, 'n', None)]
        return self.seq(self.eval(n.value, st),
                        lambda s, v: [(s2, 'n', None) for s2 in self.assign(s, n.target, v, n)] + self._flush_pending())

    def s_AugAssign(self, n, st):
        import copy
        t = n.target
        load = copy.copy(t)
        load.ctx = ast.Load()

        def k(s, vs):
            bad = []
            for x in vs:
                s, b = self.hazard(s, x, n, 'TypeError')
                bad = bad + b
                if s is None:
                    return bad
            return bad + k1(s, vs)

        def k1(s, vs):
            v = self.binop(n.op, vs[0], vs[1], s)
            if vs[0][0] == 'obj' and isinstance(n.op, ast.Add) and s.heap(vs[0], '@items') is not None:
                r = self.container_method(s, vs[0], 'extend', [vs[1]], {}, n)
                if r is not None:
                    return [(s2, 'n', None) for s2, c, _ in r]
            return [(s2, 'n', None) for s2 in self.assign(s, t, v, n)] + self._flush_pending()
        return self.seq(self.eval_list([load, n.value], st), k)

    # -- control
    def s_If(self, n, st):
        out = []
        for s, c, b in self.cond(n.test, st):
            if c != 'v':
                out.append((s, c, b))
            else:
                out.extend(self.exec_block(n.body if b else n.orelse, s))
        return out

    def s_Match(self, n, st):
        self.note('match statement not modelled')
        return [(st, 'n', None)]

    def s_While(self, n, st):
        def once(s):
            out = []
            for s2, c, b in self.cond(n.test, s):
                if c != 'v':
                    out.append((s2, c, b))
                elif not b:
                    out.append((s2, 'exit', None))
                else:
                    out.extend(self.exec_block(n.body, s2))
            return out
        outs = self.do_loop(st, n, once)
        return self.after_loop(outs, n.orelse)

    def after_loop(self, outs, orelse):
        res = []
        for s, c, v in outs:
            if c == 'exit':
                if orelse:
                    res.extend(self.exec_block(orelse, s))
                else:
                    res.append((s, 'n', None))
            elif c == 'b':
                res.append((s, 'n', None))
            else:
                res.append((s, c, v))
        return res

    def s_For(self, n, st):
        def body(s, x):
            out = []
            for s2 in self.assign(s, n.target, x, n):
                out.extend(self.exec_block(n.body, s2))
            return out + self._flush_pending()
        return self.seq(self.eval(n.iter, st), lambda s, it: self.after_loop(self.iterate_over(s, it, n, body), n.orelse))

    def iterate_over(self, st, it, n, body, counter=None):
        """run body for each element; outcomes: 'exit' when exhausted, else as statements"""
        if it[0] == 'op' and it[1] == 'iter' and len(it[2]) == 1 and it[2][0][0] == 'gen':
            it = it[2][0]
        if it[0] == 'gen':
            return self.run_generator(st, it, n, body)
        if it[0] == 'op' and it[1] == 'enumerate' and self.items_of(st, it) is None:
            key = ('l', self.fr.fid, '$enumerate:%s:%s' % (getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)))
            st = st.copy()
            st.store[key] = it[2][1] if len(it[2]) > 1 else K(0)

            def counted(s, x):
                s = s.copy()
                i = s.store.get(key)
                if i is None:
                    return body(s, ('tup', (('ev', self.eid(n, 'count')), x)))
                s.store[key] = lin_add(i, K(1))
                return body(s, ('tup', (i, x)))
            outs = []
            for s, c, v in self.iterate_over(st, it[2][0], n, counted, key if st.store[key] == K(0) else None):
                if key in s.store:
                    s = s.copy()
                    del s.store[key]
                outs.append((s, c, v))
            return outs
        cls = self.type_of(st, it)
        if cls and (self.prog.lookup(cls, '__iter__') or ('',))[0] == 'fn':
            f = self.prog.lookup(cls, '__iter__')[1]
            if f.q not in self.boundary:
                res = []
                for s, c, v in self.call_method(st, it, '__iter__', [], {}, n):
                    if c != 'v':
                        res.append((s, c, v))
                    elif v == it:
                        res.extend(self.opaque_iter(s, it, n, body))
                    else:
                        res.extend(self.iterate_over(s, v, n, body))
                return res
        items = self.items_of(st, it)
        if items is not None and len(items) <= 12:
            outs = []
            cur = [st]
            for i, x in enumerate(items):
                old = self.stack
                self.stack = old + ('#%d' % i,)
                nxt = []
                for s in cur:
                    for s2, c, v in body(s, x):
                        if c in ('n', 'c'):
                            nxt.append(s2)
                        else:
                            outs.append((s2, c, v))
                self.stack = old
                cur = self.dedupe(nxt)
            return outs + [(s, 'exit', None) for s in cur]
        if it[0] == 'op' and it[1] == 'iter2':
            def once2(s):
                out = []
                for s2, c, v in self.call_value(s, it[2][0], [], {}, n):
                    if c != 'v':
                        out.append((s2, c, v))
                        continue
                    for s3, b in self.equal(s2, v, it[2][1]):
                        if b:
                            out.append((s3, 'exit', None))
                        else:
                            out.extend(body(s3, v))
                return out
            return self.do_loop(st, n, once2)
        return self.opaque_iter(st, it, n, body, counter)

    def opaque_iter(self, st, it, n, body, counter=None):
        def once(s):
            eid = self.eid(n, 'next')
            out = []
            # keys of the elements come from the iterated object
            res = ('ev', eid)
            if it[0] == 'op' and it[1] == 'zip':
                res = ('tup', tuple(('idx', ('ev', eid), K(i)) for i in range(len(it[2]))))
            if self.should_raise('next', it, None):
                s1 = self.emit(s, 'next', 'next', it, [], {}, n, raised=True, eid=eid)
                out.append((s1, 'x', ('exc', None, eid)))
            s1 = self.emit(s, 'stop', 'stop', it, [], {}, n, eid=eid)
            out.append((s1, 'exit', None))
            # the position of the element, where enumerate() counts it
            at = {'index': s.store[counter]} if counter is not None and counter in s.store else {}
            s2 = self.emit(s, 'next', 'next', it, [], at, n, eid=eid, result=res)
            s2 = self.forget(s2, ('ev', eid))
            out.extend(body(s2, res))
            return out
        return self.do_loop(st, n, once)

    # -- generators
    def run_generator(self, st, g, n, body):
        f = self.prog.funcs[g[1]]
        self.tokens += 1
        token = ('tok', self.tokens)
        consumer = self.fr
        cstack = self.stack
        eng = self

        def on_yield(s, v):
            saved, savedstack, savedactive = eng.frames, eng.stack, eng.active
            eng.frames = saved + [consumer]
            eng.stack = cstack
            try:
                outs = body(s, v)
            finally:
                eng.frames, eng.stack, eng.active = saved, savedstack, savedactive
            res = []
            for s2, c, x in outs:
                if c in ('n', 'c'):
                    res.append((s2, 'v', NONE))
                else:
                    res.append((s2, 'g', (token, c, x)))
            return res
        outs = self.exec_function(f, dict(g[2]), st, g[4] if g[4] != NONE else None,
                                  g[3] + ('run',), g[5], n, on_yield=on_yield)
        res = []
        for s, c, v in outs:
            if c == 'v':
                res.append((s, 'exit', None))
            elif c == 'g' and v[0] == token:
                res.append((s, v[1], v[2]))
            else:
                res.append((s, c, v))
        return res

    # -- loops
    def do_loop(self, st, n, once):
        from .interp import Loop, LoopRef, Event, Alloc, Undecided, SegEnd
        loop = Loop(n, self.fr.func)
        lid = self.eid(n, 'loop')
        dead = self.dead_names(n, self.fr.func)
        fid = self.fr.fid
        outer_trace = st.trace
        st = st.copy()
        for nm in dead:
            st.store.pop(('l', fid, nm), None)
        keys = {}
        work = []

        def head(s):
            k = s.key()
            if k in keys:
                return keys[k]
            i = len(loop.heads)
            keys[k] = i
            loop.heads.append(s)
            loop.trans[i] = []
            work.append(i)
            return i
        head(st)
        results = []
        merged = [None]

        def join_head(s):
            m = merged[0]
            if m is None:
                m = loop.heads[-1]
            j = self.join_states(m, s, lid)
            merged[0] = j
            return head(j)
        while work:
            i = work.pop(0)
            if len(loop.heads) > self.cfg.max_heads * 5:
                raise Undecided('loop at %s does not converge' % self.pos(n, ''))
            s0 = loop.heads[i].copy()
            ref = LoopRef(loop, 0, i)
            s0.trace = (outer_trace, ref)
            for s, c, v in once(s0):
                if c in ('n', 'c'):
                    seg = []
                    t = s.trace
                    while t[1] is not ref:
                        seg.append(t[1])
                        t = t[0]
                    seg.reverse()
                    seg.append(SegEnd(s))
                    s2 = self.back_edge(s, seg, lid, fid, dead, loop)
                    if len(loop.heads) >= self.cfg.max_heads and s2.key() not in keys:
                        j = join_head(s2)
                    else:
                        j = head(s2)
                    loop.trans[i].append((seg, j))
                else:
                    results.append((s, c, v))
        return results

    def back_edge(self, s, seg, lid, fid, dead, loop):
        from .interp import flat, Event, Alloc
        evs, objs = set(), set()

        def collect(items, seen):
            for it in items:
                if isinstance(it, Event):
                    if it.eid:
                        evs.add(('ev', it.eid))
                    if it.result is not None:
                        for x in subterms(it.result):
                            if x[0] == 'ev':
                                evs.add(x)
                elif isinstance(it, Alloc):
                    objs.add(it.obj)
                elif hasattr(it, 'loop') and id(it.loop) not in seen:
                    seen.add(id(it.loop))
                    for tr in it.loop.trans.values():
                        for sg, j in tr:
                            collect(sg, seen)
        collect(seg, set())
        s = s.copy()
        for nm in dead:
            s.store.pop(('l', fid, nm), None)
        names = evs | objs

        def ren(t):
            if not isinstance(t, tuple) or not t:
                return t
            if t in names:
                return ('old', lid, t)
            if t[0] == 'old' and t[1] == lid:
                if t[2] in names:
                    return ('older', lid, t[2])
                return t
            if t[0] == 'older' and t[1] == lid:
                return t
            if t[0] in ('k', 'sym', 'ev', 'obj', 'cls', 'fn', 'ext'):
                return t
            if t[0] == 'lin':
                c, d = t[1], {}
                for x, m in t[2]:
                    y = ren(x)
                    c2, d2 = lin_parts(y)
                    c += m * c2
                    for kk, vv in d2.items():
                        d[kk] = d.get(kk, 0) + m * vv
                return mk_lin(c, d)
            return tuple(ren(x) for x in t)
        st2 = s.copy()
        st2.store = {}
        for k, v in s.store.items():
            if k[0] == 'h' or k[0] == 'hdr':
                k = (k[0], ren(k[1]), ren(k[2]) if k[0] == 'hdr' else k[2])
            if isinstance(v, tuple):
                st2.store[k] = ren(v)
            else:
                st2.store[k] = v
        # drop heap of unreachable old objects
        live = self.live_terms(st2)
        for k in list(st2.store):
            if k[0] in ('h', 'hdr') and k[1][0] in ('old', 'older') and k[1] not in live:
                del st2.store[k]
        # widening: values that keep growing become phi
        base = loop.heads[0]
        moved = {}
        for k, v in list(st2.store.items()):
            b = base.store.get(k)
            if v == b:
                continue
            if self.finite(v, lid) and not (len(loop.heads) > self.cfg.max_heads and not is_k(v)):
                continue
            ph = ('phi', lid, k, ttype(v) or self.evtype.get(v) or (b is not None and ttype(b)) or None)
            if v == ph:
                continue
            moved[k] = (v, ph)
            st2.store[k] = ph
        # a value told in terms of what such a phi was a turn ago is told anew
        again = bool(moved)
        while again:
            again = False
            stale = {ph for v, ph in moved.values()}
            for k, v in list(st2.store.items()):
                if k in moved or not isinstance(v, tuple) or not any(x in stale for x in subterms(v)):
                    continue
                ph = ('phi', lid, k, ttype(v) or self.evtype.get(v) or None)
                for k2, (v2, ph2) in moved.items():
                    if v2[0] in ('phi', 'lin') and v[0] in ('phi', 'lin'):
                        d = lin_add(v, v2, -1)
                        if is_k(d):
                            ph = lin_add(ph2, d)
                            break
                if ph != v:
                    moved[k] = (v, ph)
                    st2.store[k] = ph
                    again = True
        # versions
        st2.vers = {}
        for k, v in s.vers.items():
            st2.vers[ren(k)] = ren_ver(v, lid, names)
        live = self.live_terms(st2)
        # facts
        m = {v: ph for k, (v, ph) in moved.items() if v[0] not in ('k',)}
        st2.null, st2.lits = {}, {}

        def ok(t):
            for x in subterms(t):
                if x[0] in ('old', 'older', 'ev', 'phi') and x not in live:
                    if x[0] == 'ev' and x not in names:
                        continue
                    if x[0] in ('phi', 'old', 'older') and x[1] != lid:
                        continue
                    return False
                if x[0] == 'obs' and x[4]:
                    return x in live
            return True
        newphi = set(ph for v, ph in moved.values() if ph[0] == 'phi')

        def mentions_new(t):
            return any(x in newphi for x in subterms(t))
        for t, val in s.null.items():
            t2 = ren(t)
            if mentions_new(t2):
                continue
            if ok(t2):
                st2.null[t2] = val
        for a, val in s.lits.items():
            a2 = ren(a)
            if not mentions_new(a2) and ok(a2):
                st2.lits[a2] = val
        nums = set()
        for f in s.nums:
            f2 = ren(f)
            if not mentions_new(f2) and ok(f2):
                nums.add(f2)
        for k, (v, ph) in moved.items():
            nl = s.nullness(v) if True else NET
            base_n = st2._intrinsic(ph)
            if nl != base_n and nl != NET:
                st2.null[ph] = nl
            for f in s.nums:
                fv = ren(f)
                d = lin_add(fv, ren(v) if True else v, -1)
                if is_k(d):
                    nums.add(lin_add(ph, d))
                d = lin_add(fv, ren(v))
                if is_k(d):
                    nums.add(lin_add(d, ph, -1))
        st2.nums = frozenset(nums)
        st2.trace = None
        return st2

    def join_states(self, a, b, lid):
        r = a.copy()
        r.trace = None
        for k in set(a.store) | set(b.store):
            x, y = a.store.get(k), b.store.get(k)
            if x == y:
                continue
            if k[0] in ('h', 'hdr') and (x is None or y is None) and k[2] not in ('@class', '@kind'):
                # absent: the field's prior value
                if k[0] == 'h':
                    x = x or ('fld', k[1], k[2], a.vers.get(k[1], 0))
                    y = y or ('fld', k[1], k[2], b.vers.get(k[1], 0))
                    if x == y:
                        r.store[k] = x
                        continue
            if x is None or y is None:
                if k[0] == 'l':
                    r.store.pop(k, None)
                    continue
            tx = ttype(x) if x is not None else None
            ty = ttype(y) if y is not None else None
            ph = ('phi', lid, k, tx if tx == ty else None)
            nl = (a.nullness(x) if x is not None else NET) | (b.nullness(y) if y is not None else NET)
            r.store[k] = ph
            if nl != NET:
                r.null[ph] = nl
            else:
                r.null.pop(ph, None)
        phis = set(v for v in r.store.values() if isinstance(v, tuple) and v[0] == 'phi')
        null = {}
        for k, v in r.null.items():
            if k in phis:
                null[k] = v
            elif k in b.null:
                null[k] = v | b.null[k]
        r.null = null
        r.lits = {k: v for k, v in a.lits.items() if b.lits.get(k) == v}
        r.nums = a.nums & b.nums
        r.vers = {k: (v if b.vers.get(k) == v else ('jver', lid)) for k, v in a.vers.items()}
        for k in b.vers:
            if k not in r.vers:
                r.vers[k] = ('jver', lid)
        return r

    def live_terms(self, st):
        live = set()
        todo = []
        for k, v in st.store.items():
            if k[0] == 'l' or k[0] in ('pend',):
                todo.append(v)
            elif k[0] in ('h', 'hdr') and not (k[1][0] in ('old', 'older', 'obj')):
                todo.append(v)
                todo.append(k[1])
        heapby = {}
        for k, v in st.store.items():
            if k[0] in ('h', 'hdr'):
                heapby.setdefault(k[1], []).append(v)
        seen = set()
        while todo:
            v = todo.pop()
            for x in subterms(v):
                if x in seen:
                    continue
                seen.add(x)
                if x in heapby:
                    todo.extend(heapby[x])
        return seen

    def finite(self, v, lid):
        if not isinstance(v, tuple):
            return True
        tag = v[0]
        if tag == 'k':
            return v[1] in ('NoneType', 'bool', 'str', 'bytes')
        if tag in ('sym', 'fld', 'cls', 'fn', 'ext', 'obj', 'clo', 'mod', 'gbl', 'partial', 'gen'):
            return not any(x[0] in ('older',) for x in subterms(v)) and tag != 'fld' or \
                tag == 'fld' and self.depth_of(v) < 6
        if tag == 'old':
            return True
        if tag == 'older':
            return False
        if tag == 'phi':
            return True
        if tag in ('tup', 'lst'):
            return len(v[1]) <= 6 and all(self.finite(x, lid) for x in v[1]) and \
                not any(x[0] in ('phi', 'older') for x in subterms(v))
        if tag == 'dct':
            return all(self.finite(x, lid) for p in v[1] for x in p)
        if tag in ('lin', 'cat', 'add', 'len', 'op', 'm', 'idx', 'slice', 'obs', 'item', 'exc'):
            # no dependence on this loop: stable
            bad = [x for x in subterms(v) if x[0] in ('older', 'phi') or x[0] == 'old' and x[1] == lid]
            if not bad:
                return True
            if tag in ('idx', 'm', 'slice', 'op', 'obs', 'exc', 'item') and not any(x[0] in ('older', 'phi') for x in bad) and self.depth_of(v) < 6:
                return True
            return False
        return False

    def depth_of(self, v, d=0):
        if not isinstance(v, tuple) or d > 12:
            return 0
        return 1 + max([self.depth_of(x, d + 1) for x in v if isinstance(x, tuple)] or [0])

    def dead_names(self, n, func):
        """locals of func that are always written before being read in an
        iteration and never read outside the loop"""
        key = (func.q, id(n))
        if key in self.dead_cache:
            return self.dead_cache[key]
        reads_out = set()
        inside = set(id(x) for x in ast.walk(n))
        body = func.node.body if isinstance(func.node.body, list) else [func.node.body]
        nested = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)) and id(x) not in inside:
                    reads_out.add(x.id)
                if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not func.node:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name):
                            nested.add(y.id)
        w = set()
        r = set()
        if isinstance(n, ast.While):
            first_reads_expr(n.test, w, r)
            first_reads(n.body, set(w), r)
        elif isinstance(n, ast.For):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    w.add(x.id)
            first_reads(n.body, set(w), r)
            first_reads_expr(n.iter, set(), r)
        else:
            self.dead_cache[key] = set()
            return set()
        stores = set(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        d = (stores - r - reads_out - nested) & func.locals_
        self.dead_cache[key] = d
        return d

    # -- try / with
    def match_handlers(self, st, exc, handlers):
        """-> list of (state, handler or None, exception term)"""
        out = []
        if exc[0] == 'exc':
            classes = exc[1]
        else:
            c = self.type_of(st, exc)
            classes = (c,) if c else None
        rest = list(classes) if classes is not None else None
        for h in handlers:
            names = self.handler_names(h)
            if names is None:
                out.append((st, h, exc if rest is None or exc[0] != 'exc' else ('exc', tuple(rest), exc[2])))
                return out
            if rest is None:
                if any(x in ('Exception', 'BaseException') for x in names):
                    out.append((st, h, exc))
                    return out
                out.append((st, h, ('exc', tuple(names), exc[2] if exc[0] == 'exc' else None)))
            else:
                hit = [c for c in rest if any(a in names for a in self.prog.exc_ancestors(c))]
                if hit:
                    e2 = ('exc', tuple(hit), exc[2]) + tuple(exc[3:]) if exc[0] == 'exc' else exc
                    out.append((st, h, e2))
                    rest = [c for c in rest if c not in hit]
                    if not rest:
                        return out
                # handler for a subclass of a possible class
                else:
                    sub = [nm for nm in names if any(c in self.prog.exc_ancestors(nm) for c in rest)]
                    if sub:
                        out.append((st, h, ('exc', tuple(sub), exc[2] if exc[0] == 'exc' else None)))
        if exc[0] == 'exc':
            out.append((st, None, ('exc', tuple(rest) if rest is not None else None) + tuple(exc[2:])))
        else:
            out.append((st, None, exc))
        return out

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            outs = self.eval(t, State())
            v = outs[0][2]
            if v[0] == 'tup':
                out += [x[1] for x in v[1] if x[0] in ('cls', 'ext')]
            elif v[0] in ('cls', 'ext'):
                out.append(v[1])
            else:
                out.append('?')
        return [ALIASES.get(x, x) for x in out]

    def s_Try(self, n, st):
        protect = True
        self.try_depth += 1
        try:
            outs = self.exec_block(n.body, st)
        finally:
            self.try_depth -= 1
        mid = []
        fin = bool(n.finalbody)
        if fin:
            self.try_depth += 1
        try:
            for s, c, v in outs:
                if c == 'n' and n.orelse:
                    mid.extend(self.exec_block(n.orelse, s))
                elif c == 'x' and n.handlers:
                    for s2, h, e in self.match_handlers(s, v, n.handlers):
                        if h is None:
                            mid.append((s2, 'x', e))
                            continue
                        s3 = self.emit(s2, 'catch', 'catch', None, [e], {}, h)
                        if h.name:
                            s3 = self.assign_name(s3, h.name, e)
                        self.handling.append(e)
                        r = self.exec_block(h.body, s3)
                        self.handling.pop()
                        for s4, c4, v4 in r:
                            if h.name:
                                s4 = s4.copy()
                                s4.store.pop(('l', self.fr.fid, h.name), None)
                            mid.append((s4, c4, v4))
                else:
                    mid.append((s, c, v))
        finally:
            if fin:
                self.try_depth -= 1
        if not fin:
            return mid
        res = []
        for s, c, v in mid:
            for s2, c2, v2 in self.exec_block(n.finalbody, s):
                res.append((s2, c, v) if c2 == 'n' else (s2, c2, v2))
        return res

    s_TryStar = s_Try

    def s_With(self, n, st):
        return self._with(n, list(n.items), st)

    s_AsyncWith = s_With

    def _with(self, n, items, st):
        if not items:
            return self.exec_block(n.body, st)
        it = items[0]

        def k(s, cm):
            return self.with_cm(s, cm, it, n, lambda s2, v: self._with_body(n, items, it, s2, v))
        return self.seq(self.eval(it.context_expr, st), k)

    def _with_body(self, n, items, it, s, v):
        if it.optional_vars is not None:
            out = []
            for s2 in self.assign(s, it.optional_vars, v, n):
                out.extend(self._with(n, items[1:], s2))
            return out
        return self._with(n, items[1:], s)

    def with_cm(self, st, cm, it, n, body):
        if cm[0] == 'gen':
            return self.with_generator(st, cm, n, body)
        node = it.context_expr
        if cm[0] == 'op' and cm[1] == 'contextlib.closing' or cm[0] == 'ev' and str(cm[1][-1]).startswith('closing@'):
            target = None
            for e in st.events():
                if getattr(e, 'result', None) == cm:
                    target = e.args[0]
            if cm[0] == 'op':
                target = cm[2][0]
            return self._managed(st, target, n, body, lambda s: self.call_method(s, target, 'close', [], {}, node))
        cls = self.type_of(st, cm)
        if cls and (self.prog.lookup(cls, '__enter__') or ('',))[0] == 'fn':
            res = []
            for s, c, v in self.call_method(st, cm, '__enter__', [], {}, node):
                if c != 'v':
                    res.append((s, c, v))
                    continue
                res.extend(self._managed(s, v, n, body,
                                         lambda s2: self.call_method(s2, cm, '__exit__', [NONE, NONE, NONE], {}, node)))
            return res
        eid = self.eid(node, 'enter')
        s = self.emit(st, 'enter', '__enter__', cm, [], {}, node, eid=eid, result=cm)

        def close(s2):
            s3 = self.emit(s2, 'exit', '__exit__', cm, [], {}, node, eid=self.eid(node, 'exit'))
            return [(s3, 'v', NONE)]
        return self._managed(s, cm, n, body, close)

    def _managed(self, st, v, n, body, close):
        self.try_depth += 1
        try:
            outs = body(st, v)
        finally:
            self.try_depth -= 1
        res = []
        for s, c, x in outs:
            for s2, c2, y in close(s):
                if c2 == 'v':
                    res.append((s2, c, x))
                else:
                    res.append((s2, c2, y))
        return res

    def with_generator(self, st, g, n, body):
        f = self.prog.funcs[g[1]]
        self.tokens += 1
        token = ('pend', self.eid(n, 'with'))
        consumer = self.fr
        cstack = self.stack
        eng = self

        def on_yield(s, v):
            saved, savedstack = eng.frames, eng.stack
            eng.frames = saved + [consumer]
            eng.stack = cstack
            eng.try_depth += 1
            try:
                outs = body(s, v)
            finally:
                eng.frames, eng.stack = saved, savedstack
                eng.try_depth -= 1
            res = []
            for s2, c, x in outs:
                if c == 'x':
                    res.append((s2, 'x', x))
                else:
                    s3 = s2.copy()
                    s3.store[token] = ('ctl', c, x)
                    res.append((s3, 'v', NONE))
            return res
        outs = self.exec_function(f, dict(g[2]), st, g[4] if g[4] != NONE else None, g[3] + ('cm',), g[5], n,
                                  on_yield=on_yield)
        res = []
        for s, c, v in outs:
            p = s.store.get(token)
            if p is not None:
                s = s.copy()
                del s.store[token]
            if c == 'v':
                if p is not None:
                    res.append((s, p[1], p[2]))
                else:
                    res.append((s, 'n', None))
            else:
                res.append((s, c, v))
        return res


def ren_ver(v, lid, names):
    if isinstance(v, tuple):
        if ('ev', v) in names:
            return ('oldver', v)
    return v


def first_reads_expr(e, w, r):
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in w:
            r.add(x.id)
    for x in ast.walk(e):
        if isinstance(x, ast.NamedExpr):
            w.add(x.target.id)


def first_reads(stmts, w, r):
    for s in stmts:
        if isinstance(s, ast.Assign):
            first_reads_expr(s.value, w, r)
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in w:
                        r.add(x.id)
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        w.add(x.id)
        elif isinstance(s, ast.AugAssign):
            first_reads_expr(s.value, w, r)
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name) and x.id not in w:
                    r.add(x.id)
        elif isinstance(s, ast.If):
            first_reads_expr(s.test, w, r)
            w1, w2 = set(w), set(w)
            first_reads(s.body, w1, r)
            first_reads(s.orelse, w2, r)
            t1, t2 = ends(s.body), ends(s.orelse)
            if t1 and not t2:
                w |= w2
            elif t2 and not t1:
                w |= w1
            else:
                w |= (w1 & w2)
        elif isinstance(s, ast.For):
            first_reads_expr(s.iter, w, r)
            w1 = set(w)
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    w1.add(x.id)
            first_reads(s.body, w1, r)
            first_reads(s.orelse, set(w), r)
        elif isinstance(s, ast.While):
            first_reads_expr(s.test, w, r)
            first_reads(s.body, set(w), r)
            first_reads(s.orelse, set(w), r)
        elif isinstance(s, (ast.Try,)):
            first_reads(s.body, set(w), r)
            for h in s.handlers:
                first_reads(h.body, set(w), r)
            first_reads(s.orelse, set(w), r)
            w1 = set(w)
            first_reads(s.finalbody, w1, r)
            w |= w1
        elif isinstance(s, ast.With):
            for i in s.items:
                first_reads_expr(i.context_expr, w, r)
                if i.optional_vars is not None:
                    for x in ast.walk(i.optional_vars):
                        if isinstance(x, ast.Name):
                            w.add(x.id)
            first_reads(s.body, w, r)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    first_reads_expr(c, w, r)
                elif isinstance(c, ast.stmt):
                    first_reads([c], set(w), r)


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Break, ast.Continue, ast.Return, ast.Raise))
