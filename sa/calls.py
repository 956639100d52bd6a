"""Attribute access, calls, inlining, builtins, generators."""
import ast
from .terms import *
from .state import *
from . import builtins_model as bm
from .exprs import bind, key_const

# method names too generic to identify a repo class by
COMMON = {'read', 'readline', 'readlines', 'write', 'close', 'flush', 'tell', 'seek', 'update', 'send', 'get',
          'items', 'keys', 'values', 'append', 'extend', 'pop', 'insert', 'remove', 'clear', 'start', 'parse', 'copy',
          'add', 'join', 'split', 'strip', 'encode', 'decode', 'format', 'sort', 'index', 'count', 'setdefault',
          'popitem', 'readinto', 'truncate', 'fileno', 'isatty', 'detach', 'getvalue', '__enter__', '__exit__',
          '__init__', '__str__', '__iter__', '__next__', '__getitem__', '__setitem__', '__contains__', '__len__',
          '__bool__', '__eq__', 'done', 'run', 'empty', 'acquire', 'release', 'unused_data', 'open', 'next'}
OBSERVERS = {'get_header', 'get', '__getitem__'}
QUERY = {'keys', 'values', 'items', 'get_statuscode', 'getvalue', 'getbuffer', 'digest', 'hexdigest', 'tell',
         'get_rec_type', 'empty', 'rem_length', 'readable', 'seekable', 'writable', 'fileno', '__contains__'}
HDR_CLASSES = ('warcio.statusandheaders:StatusAndHeaders',)


class CallMixin(object):

    # ------------------------------------------------------------------ types
    def type_of(self, st, t):
        c = self.cfg.types.get(t)
        if c:
            return c
        if t[0] == 'obj':
            v = st.store.get(('h', t, '@class'))
            return v[1] if v is not None else None
        c = self.evtype.get(t)
        if c and c in self.prog.classes:
            return c
        if t[0] == 'fld':
            bc = self.type_of(st, t[1])
            if bc:
                ft = self.prog.field_type(bc, t[2])
                if ft:
                    return ft
            return None
        if t[0] == 'old':
            if t[2][0] == 'obj':
                v = st.store.get(('h', t, '@class'))
                return v[1] if v is not None else None
            return self.type_of(st, t[2])
        if t[0] == 'super':
            return None
        return None

    # ------------------------------------------------------------------ attributes
    def getattr(self, st, v, attr, n):
        tag = v[0]
        if tag == 'ext':
            return [(st, 'v', bm.ext_const(v[1] + '.' + attr))]
        if tag == 'mod':
            r = self.global_name(v[1], attr)
            return [(st, 'v', r)]
        if tag == 'cls':
            l = self.prog.lookup(v[1], attr)
            if l and l[0] == 'fn':
                f = l[1]
                if f.kind == 'class':
                    return [(st, 'v', ('bm', ('fn', f.q), v))]
                return [(st, 'v', ('fn', f.q))]
            h = st.heap(v, attr)
            if h is not None:
                return [(st, 'v', h)]
            if l and l[0] == 'attr':
                if attr not in self.prog.class_stored:
                    t = self.const_expr(self.prog.classes[l[1]].mod.name, l[2], None, l[1])
                    return [(st, 'v', t)]
            if attr == '__name__':
                return [(st, 'v', K(v[1].split(':')[1]))]
            return [(st, 'v', ('fld', v, attr, 0))]
        if tag == 'super':
            cls, after, selft = v[1], v[2], v[3]
            l = self.prog.lookup(cls, attr, after)
            if l and l[0] == 'fn':
                return [(st, 'v', ('bm', ('fn', l[1].q), selft))]
            if l and l[0] == 'extbase':
                return [(st, 'v', ('bm', ('ext', l[1] + '.' + attr), selft))]
            return [(st, 'v', ('bm', ('ext', 'object.' + attr), selft))]
        h = st.heap(v, attr)
        if h is not None:
            return [(st, 'v', h)]
        cls = self.type_of(st, v)
        if cls:
            l = self.prog.lookup(cls, attr)
            if l and l[0] == 'fn':
                f = l[1]
                if f.kind == 'property':
                    return self.call_fn(st, f, v, [], {}, n)
                if not self.prog.is_inst_attr(cls, attr):
                    if f.kind == 'static':
                        return [(st, 'v', ('fn', f.q))]
                    if f.kind == 'class':
                        return [(st, 'v', ('bm', ('fn', f.q), ('cls', cls)))]
                    return [(st, 'v', ('bm', ('fn', f.q), v))]
            if l and l[0] == 'attr' and not self.prog.is_inst_attr(cls, attr) and attr not in self.prog.class_stored:
                t = self.const_expr(self.prog.classes[l[1]].mod.name, l[2], None, l[1])
                return [(st, 'v', t)]
            if v[0] == 'obj' and l and l[0] == 'attr' and attr not in self.prog.class_stored:
                t = self.const_expr(self.prog.classes[l[1]].mod.name, l[2], None, l[1])
                return [(st, 'v', t)]
        t = ('fld', v, attr, st.vers.get(v, 0))
        return [(st, 'v', t)]

    def setattr(self, st, v, attr, val, n):
        """-> list of (st, ctl, _)"""
        cls = self.type_of(st, v)
        if cls:
            f = self.prog.setter(cls, attr)
            if f is not None:
                return [(s, c if c != 'v' else 'v', x) for s, c, x in self.call_fn(st, f, v, [val], {}, n)]
        s = self.emit(st, 'store', attr, v, [val], {}, n)
        s.store[('h', v, attr)] = val
        for k in list(s.store):
            if k[0] == 'hdr' and k[1] == ('fld', v, attr, 0):
                pass
        return [(s, 'v', NONE)]

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and self.lookup(st, 'super')[0] == 'ext':
            def k(s, vs):
                fr = self.fr
                # the class whose method is running
                fn = fr.func
                while fn.cls is None and fn.outer:
                    fn = self.prog.funcs[fn.outer]
                after = vs[0][1] if vs and vs[0][0] == 'cls' else fn.cls
                selft = vs[1] if len(vs) > 1 else self.self_of(s)
                if selft is not None and selft[0] == 'cls':
                    cls = selft[1]
                else:
                    cls = (self.type_of(s, selft) if selft else None) or after
                return [(s, 'v', ('super', cls, after, selft))]
            return bind(self.eval_list(n.args, st), k)
        if isinstance(f, ast.Attribute):
            def k1(s, recv):
                s, bad = self.hazard(s, recv, n, 'AttributeError')
                return bad if s is None else bad + self._with_args(n, s, lambda s2, a, kw: self.call_method(s2, recv, f.attr, a, kw, n))
            return bind(self.eval(f.value, st), k1)

        def k2(s, callee):
            return self._with_args(n, s, lambda s2, a, kw: self.call_value(s2, callee, a, kw, n))
        return bind(self.eval(f, st), k2)

    def self_of(self, st):
        fr = self.fr
        while fr is not None:
            if fr.selfterm is not None:
                return fr.selfterm
            o = self.outer_of.get(fr.fid)
            if o is None:
                return None
            fr = self.frame_by_id.get(o[0])
        return None

    def _with_args(self, n, st, f):
        outs = [(st, 'v', ([], {}))]
        for a in n.args:
            star = isinstance(a, ast.Starred)
            nxt = []
            for s, c, v in outs:
                if c != 'v':
                    nxt.append((s, c, v))
                    continue
                for s2, c2, x in self.eval(a.value if star else a, s):
                    if c2 != 'v':
                        nxt.append((s2, c2, x))
                    elif star:
                        it = self.items_of(s2, x)
                        nxt.append((s2, 'v', (v[0] + (list(it) if it is not None else [('star', x)]), v[1])))
                    else:
                        nxt.append((s2, 'v', (v[0] + [x], v[1])))
            outs = nxt
        for k in n.keywords:
            nxt = []
            for s, c, v in outs:
                if c != 'v':
                    nxt.append((s, c, v))
                    continue
                for s2, c2, x in self.eval(k.value, s):
                    if c2 != 'v':
                        nxt.append((s2, c2, x))
                        continue
                    kw = dict(v[1])
                    if k.arg is None:
                        d = self.dict_of(s2, x)
                        if d is not None and all(is_k(a, 'str') for a, b in d):
                            for a, b in d:
                                kw[a[2]] = b
                        else:
                            # a mapping with some known keys
                            kw['**'] = x
                            for kk in list(s2.store):
                                if kk[0] == 'hdr' and kk[1] == x and is_k(kk[2], 'str'):
                                    kw[kk[2][2]] = s2.store[kk]
                    else:
                        kw[k.arg] = x
                    nxt.append((s2, 'v', (v[0], kw)))
            outs = nxt
        return bind(outs, lambda s, v: f(s, v[0], v[1]))

    def call_value(self, st, callee, args, kw, n):
        tag = callee[0]
        if tag == 'fn':
            return self.call_fn(st, self.prog.funcs[callee[1]], None, args, kw, n)
        if tag == 'cls':
            return self.construct(st, callee[1], args, kw, n)
        if tag == 'bm':
            if callee[1][0] == 'fn':
                return self.call_fn(st, self.prog.funcs[callee[1][1]], callee[2], args, kw, n)
            if callee[1][0] == 'ext':
                return self.call_ext(st, callee[1][1], [callee[2]] + args, kw, n)
        if tag == 'clo':
            return self.call_fn(st, self.prog.funcs[callee[1]], None, args, kw, n, outer=callee[2])
        if tag == 'ext':
            return self.call_ext(st, callee[1], args, kw, n)
        if tag == 'partial':
            k2 = dict(callee[3])
            k2.update(kw)
            return self.call_value(st, callee[1], list(callee[2]) + args, k2, n)
        if tag == 'fld' and not (self.type_of(st, callee) and self.prog.lookup(self.type_of(st, callee), '__call__')):
            # an attribute holding a callable: treat as a method call
            if st.heap(callee[1], callee[2]) is None and (self.resolve_method(st, callee[1], callee[2]) or callee[2] in PURE_METHODS
                                                          or callee[2] in ('get', 'items', 'keys', 'values')):
                return self.call_method(st, callee[1], callee[2], args, kw, n)
            return self.opaque(st, callee[2], callee[1], args, kw, n)
        cls = self.type_of(st, callee)
        if cls and self.prog.lookup(cls, '__call__'):
            return self.call_method(st, callee, '__call__', args, kw, n)
        return self.opaque(st, '()', callee, args, kw, n)

    def resolve_method(self, st, recv, name):
        """-> (Func, cls) or None"""
        cls = self.type_of(st, recv)
        if cls:
            l = self.prog.lookup(cls, name)
            if l and l[0] == 'fn':
                return l[1], cls
            return None
        if name in COMMON or recv[0] in ('k', 'cat', 'm', 'op', 'lin', 'len', 'tup', 'lst', 'dct', 'ext', 'mod'):
            return None
        if recv[0] == 'obj' and st.heap(recv, '@kind') is not None:
            return None
        c = self.prog.method_index.get(name, [])
        # one implementation, or several within one hierarchy: take the root-most one
        if not c:
            return None
        qs = [x[0] for x in c]
        roots = [q for q in qs if not any(o != q and o in self.prog.mro(q) for o in qs)]
        if len(roots) == 1:
            if len(qs) > 1:
                return None
            return self.prog.funcs[dict(c)[roots[0]]], roots[0]
        return None

    def call_method(self, st, recv, name, args, kw, n):
        tag = recv[0]
        if tag == 'ext':
            return self.call_ext(st, bm.ext_const(recv[1] + '.' + name)[1] if bm.ext_const(recv[1] + '.' + name)[0] == 'ext' else name, args, kw, n)
        if tag in ('mod', 'cls', 'super'):
            if tag == 'cls':
                l = self.prog.lookup(recv[1], name)
                if l and l[0] == 'extbase':
                    return self.call_ext(st, l[1] + '.' + name, args, kw, n)
            return bind(self.getattr(st, recv, name, n), lambda s, c: self.call_value(s, c, args, kw, n))
        h = st.heap(recv, name)
        if h is not None:
            return self.call_value(st, h, args, kw, n)
        # containers
        if tag == 'obj' and st.heap(recv, '@kind') is not None:
            r = self.container_method(st, recv, name, args, kw, n)
            if r is not None:
                return r
        if is_k(recv, 'str', 'bytes'):
            if name == 'format':
                ps = bm.parse_format(recv[2], args, kw)
                if ps is not None:
                    return [(st, 'v', mk_cat(ps))]
            if name == 'join' and args:
                it = self.items_of(st, args[0])
                if it is not None:
                    ps = []
                    for i, x in enumerate(it):
                        if i:
                            ps.append(recv)
                        ps.append(x)
                    return [(st, 'v', mk_cat([K(type(recv[2])())] + ps))]
            if all(is_k(a) for a in args) and not kw:
                v = bm.fold_method(recv[2], name, [a[2] for a in args])
                if v is not None:
                    return [(st, 'v', v)]
        rm = self.resolve_method(st, recv, name)
        if rm is not None:
            f, cls = rm
            if any(q in HDR_CLASSES for q in [f.cls]):
                r = self.header_method(st, recv, f, args, kw, n)
                if r is not None:
                    return r
            if f.kind == 'static':
                return self.call_fn(st, f, None, args, kw, n)
            if f.kind == 'class':
                return self.call_fn(st, f, ('cls', cls), args, kw, n)
            if f.kind == 'property':
                return bind(self.call_fn(st, f, recv, [], {}, n), lambda s, v: self.call_value(s, v, args, kw, n))
            return self.call_fn(st, f, recv, args, kw, n)
        cls = self.type_of(st, recv)
        if cls:
            l = self.prog.lookup(cls, name)
            if l and l[0] == 'attr':
                return bind(self.getattr(st, recv, name, n), lambda s, c: self.call_value(s, c, args, kw, n))
            if l and l[0] == 'extbase':
                return self.opaque(st, name, recv, args, kw, n, recvcls=cls)
        if name == 'get' and args:
            d = self.dict_of(st, recv)
            if d is not None:
                return self.const_get(st, recv, d, args, n)
            t = self.observe(st, recv, args[0])
            dflt = args[1] if len(args) > 1 else NONE
            return self.with_default(st, t, dflt)
        if name == 'pop' and args and self.mutable(recv) and is_k(args[0], 'str'):
            t = self.observe(st, recv, args[0])
            s = self.emit(st, 'delitem', 'pop', recv, args, kw, n).copy()
            s.store[('hdr', recv, key_const(args[0]))] = NONE
            return self.with_default(s, t, args[1] if len(args) > 1 else NONE)
        if name in ('items', 'keys', 'values') and not args:
            if recv[0] in ('dct', 'obj'):
                return [(st, 'v', ('m', name, recv, ()))]
            return [(st, 'v', ('obs', name, recv, (), st.vers.get(recv, 0)))]
        if name in PURE_METHODS and not kw and not (cls and cls in self.prog.classes):
            t = ('m', name, recv, tuple(args))
            hz = self.cfg.hazards is not None
            if hz and name in ('index', 'rindex') and args and self.member(st, args[0], recv)[0][1] is not True or hz and name in ('index', 'rindex') and args and len(self.member(st, args[0], recv)) > 1:
                return [self.fails(st, recv, n, 'ValueError'), (st, 'v', t)]
            if name in ('decode', 'encode') and (hz or (self.try_depth or self.cfg.all_raises) and self.cfg.raise_pred is None):
                exc = ('UnicodeDecodeError',) if name == 'decode' else ('UnicodeEncodeError', 'UnicodeDecodeError')
                total = name == 'decode' and args and is_k(args[0], 'str') and args[0][2].lower().replace('_', '-') in ('iso-8859-1', 'latin-1', 'latin1', 'iso8859-1', 'l1')
                if len(args) > 1 and is_k(args[1]) and args[1][2] in ('replace', 'ignore', 'backslashreplace') or name == 'decode' and len(args) > 1 and args[1] == K('surrogateescape'):
                    total = True
                if hz and name == 'encode' and (not args or is_k(args[0], 'str') and args[0][2].lower().replace('-', '') == 'utf8'):
                    total = True
                if recv[0] != 'k' and not total:
                    s = self.emit(st, 'pure', name, recv, args, kw, n, raised=True, eid=self.eid(n, name))
                    return [(s, 'x', ('exc', exc, self.eid(n, name))), (st, 'v', t)]
            return [(st, 'v', t)]
        return self.opaque(st, name, recv, args, kw, n, nomut=name in QUERY,
                           null=ET if name in ('read', 'readline') else None, recvcls=cls)

    def with_default(self, st, t, dflt):
        if dflt == NONE:
            return [(st, 'v', t)]
        out = []
        s = st.set_null(t, ET)
        if s is not None:
            out.append((s, 'v', t))
        s = st.set_null(t, N_)
        if s is not None:
            out.append((s, 'v', dflt))
        return out

    def const_get(self, st, recv, d, args, n):
        dflt = args[1] if len(args) > 1 else NONE
        outs = []
        cur = [st]
        if len(d) > 12 and not is_k(args[0]):
            t = ('op', 'dictget', (recv if recv[0] == 'dct' else ('dct', d), args[0], dflt))
            return [(st, 'v', t)]
        for a, b in d:
            nxt = []
            for s in cur:
                for s2, v in self.equal(s, args[0], a):
                    if v:
                        outs.append((s2, 'v', b))
                    else:
                        nxt.append(s2)
            cur = nxt
        return outs + [(s, 'v', dflt) for s in cur]

    # header maps: a few operations have a precise meaning
    def header_method(self, st, recv, f, args, kw, n):
        name = f.name
        if f.q not in self.boundary:
            return None
        bound = self.bind_args(st, f, recv, args, kw, n)
        if bound is None:
            return None
        b = bound
        ps = f.posargs[1:]
        if name in OBSERVERS and ps:
            t = self.observe(st, recv, b[ps[0]])
            self.inlined.add(f.q)
            return self.with_default(st, t, b.get(ps[1], NONE) if len(ps) > 1 else NONE)
        if name in ('replace_header', '__setitem__') and len(ps) > 1:
            outs = self._hdr_event(st, 'replace_header', recv, f, args, kw, bound, n)
            return [(self.hdr_set(s, recv, b[ps[0]], b[ps[1]]) if c == 'v' else s, c, v) for s, c, v in outs]
        if name == 'add_header' and len(ps) > 1:
            prev = self.observe(st, recv, b[ps[0]])
            outs = self._hdr_event(st, name, recv, f, args, kw, bound, n)
            res = []
            for s, c, v in outs:
                if c == 'v':
                    nl = st.nullness(prev)
                    if nl == N_:
                        s = self.hdr_set(s, recv, b[ps[0]], b[ps[1]])
                    elif N_ & nl:
                        s = s.copy()
                        k = key_const(b[ps[0]])
                        s.vers[(recv, k)] = self.eid(n, name)
                        s.store.pop(('hdr', recv, k), None)
                res.append((s, c, v))
            return res
        if name in ('remove_header', '__delitem__') and ps:
            outs = self._hdr_event(st, 'remove_header', recv, f, args, kw, bound, n)
            res = []
            for s, c, v in outs:
                if c == 'v':
                    s = s.copy()
                    k = key_const(b[ps[0]])
                    s.vers[(recv, k)] = self.eid(n, name)
                    s.store.pop(('hdr', recv, k), None)
                res.append((s, c, v))
            return res
        return None

    def _hdr_event(self, st, name, recv, f, args, kw, bound, n):
        return self.opaque(st, name, recv, args, kw, n, bound=bound, target=f, nomut=True, excs=())

    def hdr_set(self, s, recv, key, val):
        s = s.copy()
        k = key_const(key)
        if is_k(k):
            s.store[('hdr', recv, k)] = val
        else:
            s.vers[recv] = ('dyn', k)
            for kk in list(s.store):
                if kk[0] == 'hdr' and kk[1] == recv:
                    del s.store[kk]
        return s

    def container_method(self, st, o, name, args, kw, n):
        it = st.heap(o, '@items')
        eid = self.eid(n, name)

        def put(items):
            s = st.copy()
            s.store[('h', o, '@items')] = items
            return s
        unknown = ('ev', eid + ('items',))
        if it[0] == 'phi' and it[3] == 'list' and name in ('append', 'extend') and len(args) == 1:
            it = ('lst', (('star', it),))
        if it[0] == 'phi' and it[3] == 'list' and name == 'insert' and len(args) == 2 and args[0] == ZERO:
            it = ('lst', (('star', it),))
        if it[0] == 'lst':
            if name == 'append' and len(args) == 1:
                s = put(('lst', it[1] + (args[0],)))
                s = self.emit(s, 'append', name, o, args, kw, n, eid=eid)
                return [(s, 'v', NONE)]
            if name == 'extend' and len(args) == 1:
                x = self.items_of(st, args[0])
                s = put(('lst', it[1] + (tuple(x) if x is not None else (('star', args[0]),))))
                s = self.emit(s, 'append', name, o, args, kw, n, eid=eid)
                return [(s, 'v', NONE)]
            if name == 'insert' and len(args) == 2 and is_k(args[0], 'int'):
                l = list(it[1])
                l.insert(args[0][2], args[1])
                s = put(('lst', tuple(l)))
                return [(self.emit(s, 'append', name, o, args, kw, n, eid=eid), 'v', NONE)]
            if name == 'pop' and it[1] and not any(x[0] == 'star' for x in it[1]):
                i = args[0][2] if args and is_k(args[0], 'int') else -1
                l = list(it[1])
                try:
                    v = l.pop(i)
                except IndexError:
                    return [(st, 'x', ('exc', ('IndexError',), eid))]
                return [(put(('lst', tuple(l))), 'v', v)]
            if name in ('copy',):
                s, o2 = self.alloc(st, n, 'list', items=it)
                return [(s, 'v', o2)]
        if it[0] == 'dct':
            if name == 'get' and args:
                return self.const_get(st, o, it[1], args, n)
            if name in ('items', 'keys', 'values'):
                return [(st, 'v', ('m', name, o, ()))]
            if name == 'update':
                pairs = list(it[1])
                new = []
                ok = True
                if args:
                    d = self.dict_of(st, args[0])
                    if d is None:
                        ok = False
                    else:
                        new += list(d)
                new += [(K(a), b) for a, b in kw.items()]
                if ok:
                    for a, b in new:
                        pairs = [(x, b if x == a else y) for x, y in pairs] if any(x == a for x, y in pairs) else pairs + [(a, b)]
                    return [(put(('dct', tuple(pairs))), 'v', NONE)]
                return [(put(unknown), 'v', NONE)]
            if name == 'pop' and args:
                for a, b in it[1]:
                    if a == args[0]:
                        return [(put(('dct', tuple(p for p in it[1] if p[0] != a))), 'v', b)]
                if all(is_k(a) for a, b in it[1]) and is_k(args[0]):
                    if len(args) > 1:
                        return [(st, 'v', args[1])]
                    return [(st, 'x', ('exc', ('KeyError',), eid))]
            if name == 'setdefault' and args:
                for a, b in it[1]:
                    if a == args[0]:
                        return [(st, 'v', b)]
                if all(is_k(a) for a, b in it[1]) and is_k(args[0]):
                    d = args[1] if len(args) > 1 else NONE
                    return [(put(('dct', it[1] + ((args[0], d),))), 'v', d)]
            if name == 'clear':
                return [(put(('dct', ())), 'v', NONE)]
            if name == 'copy':
                s, o2 = self.alloc(st, n, 'dict', items=it)
                return [(s, 'v', o2)]
        if name in ('items', 'keys', 'values'):
            return [(st, 'v', ('m', name, o, ()))]
        if name in ('append', 'extend', 'insert', 'remove', 'clear', 'sort', 'reverse', 'update', 'add'):
            s = put(unknown)
            s = self.emit(s, 'append', name, o, args, kw, n, eid=eid)
            return [(s, 'v', NONE)]
        return None

    # ------------------------------------------------------------------ functions
    def bind_args(self, st, f, selft, args, kw, n):
        names = list(f.posargs)
        bound = {}
        if f.kind in ('method', 'property', 'setter', 'class') and selft is not None:
            bound[names[0]] = selft
            names = names[1:]
        args = list(args)
        kw = dict(kw)
        starred = None
        extra = []
        i = 0
        for a in args:
            if a[0] == 'star':
                starred = a
                break
            if i < len(names):
                bound[names[i]] = a
                i += 1
            else:
                extra.append(a)
        dstar = kw.pop('**', None)
        for k in list(kw):
            if k in f.posargs or k in f.kwonly:
                bound[k] = kw.pop(k)
        rest = [x for x in names[i:] + f.kwonly if x not in bound]
        if starred is not None and starred is args[-1] and dstar is None and not f.vararg:
            # f(a, *rest) of a function with no optional parameters left: the
            # rest has exactly the elements that are missing
            want = [x for x in names[i:] if x not in bound]
            if want and not any(x in f.defaults for x in want) and names[i:i + len(want)] == want:
                for j, x in enumerate(want):
                    bound[x] = ('idx', starred[1], K(j))
                rest = [x for x in rest if x not in bound]
        for x in rest:
            if starred is not None and x in f.posargs or dstar is not None:
                bound[x] = sym(x) if starred is not None else None
                if bound[x] is None:
                    t = self.observe(st, dstar, K(x))
                    bound[x] = ('starkw', dstar, K(x)) if x not in f.defaults else \
                        ('starkw', dstar, K(x), self.default_term(f, x))
            elif x in f.defaults:
                bound[x] = self.default_term(f, x)
            else:
                bound[x] = ('op', 'missing', (K(x),))
        if f.vararg:
            if starred is not None:
                if not extra and i >= len(names) or not names:
                    bound[f.vararg] = starred[1]
                else:
                    bound[f.vararg] = ('tup', tuple(extra) + (starred,))
            else:
                bound[f.vararg] = ('tup', tuple(extra))
        if f.kwarg:
            if dstar is not None and not kw:
                bound[f.kwarg] = dstar
            else:
                bound[f.kwarg] = ('@kw', tuple(sorted((K(k), v) for k, v in kw.items() if k)), dstar)
        return bound

    def default_term(self, f, name):
        return self.const_expr(f.mod.name, f.defaults[name], f.node.lineno, f.cls)

    def call_fn(self, st, f, selft, args, kw, n, outer=None):
        # unbound method called through the class
        if f.kind in ('method', 'property', 'setter') and selft is None and f.cls:
            if args and args[0][0] != 'star':
                selft, args = args[0], args[1:]
        bound = self.bind_args(st, f, selft, args, kw, n)
        if f.is_gen and f.q not in self.boundary:
            eid = self.eid(n, 'gen ' + f.name)
            bt = tuple(sorted(bound.items()))
            return [(st, 'v', ('gen', f.q, bt, eid, selft or NONE, outer))]
        if f.q in self.boundary:
            return self.opaque(st, f.name, selft, args, kw, n, bound=bound, target=f,
                               recvcls=self.type_of(st, selft) if selft else None)
        if len(self.active) >= self.cfg.depth or self.active.count(f.q) >= 2:
            self.note('call depth limit at %s' % f.q)
            return self.opaque(st, f.name, selft, args, kw, n, bound=bound, target=f)
        for d in f.decos:
            if d not in ('staticmethod', 'classmethod', 'property', 'contextmanager') and not d.endswith('.setter') \
                    and not d.endswith('contextmanager'):
                self.note('decorator %s on %s not modelled' % (d, f.q))
                return self.opaque(st, f.name, selft, args, kw, n, bound=bound, target=f)
        return self.exec_function(f, bound, st, selft, self.stack + (self.pos(n, f.name),), outer, n)

    def exec_function(self, f, bound, st, selft, stack, outer, node, entry=False, on_yield=None):
        from .interp import Frame, Undecided
        self.inlined.add(f.q)
        fid = stack + ('/' + f.q,)
        frame = Frame(fid, f, outer, selft, on_yield)
        self.outer_of[fid] = (outer, self.prog.funcs[f.outer]) if (outer is not None and f.outer) else None
        self.frame_by_id[fid] = frame
        s = st.copy()
        for k, v in bound.items():
            if isinstance(v, tuple) and v and v[0] == '@kw':
                pairs, dstar = v[1], v[2]
                old, self.stack = self.stack, stack
                self.frames.append(frame)
                o = ('obj', stack + ('kwargs:' + f.q,))
                s.store[('h', o, '@items')] = ('dct', pairs) if dstar is None else ('ev', stack + ('kw',))
                s.store[('h', o, '@kind')] = K('dict')
                self.frames.pop()
                self.stack = old
                v = o
            s.store[('l', fid, k)] = v
        oldstack = self.stack
        self.stack = stack
        self.frames.append(frame)
        self.active.append(f.q)
        if not entry:
            s = self.emit(s, 'begin', f.q, selft, None, None, node, bound=bound, target=f)
        try:
            if isinstance(f.node, ast.Lambda):
                outs = [(s2, 'r' if c == 'v' else c, v) for s2, c, v in self.eval(f.node.body, s)]
            else:
                outs = self.exec_block(f.node.body, s)
        finally:
            self.active.pop()
            self.frames.pop()
            self.stack = oldstack
        res = []
        keep = fid in self.captured or entry
        for s2, c, v in outs:
            if not keep:
                s2 = s2.copy()
                for k in list(s2.store):
                    if k[0] == 'l' and k[1] == fid:
                        del s2.store[k]
            if not entry:
                self.stack = stack
                self.frames.append(frame)
                s2 = self.emit(s2, 'end', f.q, selft, [v] if c == 'r' else [], None, node, target=f, raised=(c == 'x'))
                self.frames.pop()
                self.stack = oldstack
            if c == 'n':
                res.append((s2, 'v', NONE))
            elif c == 'r':
                res.append((s2, 'v', v))
            else:
                res.append((s2, c, v))
        if f.q in self.cfg.join:
            res = self.join_outs(res, node)
        return res

    def join_outs(self, outs, node):
        """merge the returns of a pure function into one value"""
        vals = [v for s, c, v in outs if c == 'v']
        others = [o for o in outs if o[1] != 'v']
        if len(vals) < 2:
            return outs
        base = None
        for s, c, v in outs:
            if c == 'v':
                if base is None:
                    base = s.copy()
                else:
                    base.null = {k: x for k, x in base.null.items() if s.null.get(k) == x}
                    base.lits = {k: x for k, x in base.lits.items() if s.lits.get(k) == x}
                    base.nums = base.nums & s.nums
        alts = []
        for s, c, v in outs:
            if c == 'v':
                alts.append((v, frozenset(s.nums)))
        t = ('alt', tuple(sorted(set(vals), key=repr)), self.eid(node, 'join'))
        self.alts[t] = alts
        return others + [(base, 'v', t)]

    # ------------------------------------------------------------------ construction
    def construct(self, st, cq, args, kw, n):
        cls = self.prog.classes[cq]
        l = self.prog.lookup(cq, '__init__')
        isexc = 'BaseException' in self.prog.exc_ancestors(cq)
        f = l[1] if l and l[0] == 'fn' else None
        eid = self.eid(n, cls.name)
        bound = None
        if f is not None:
            o = ('obj', eid)
            bound = self.bind_args(st, f, o, args, kw, n)
        opaque = cq in self.cfg.opaque_classes or (f is not None and f.q in self.boundary)
        sr = self.should_raise('new:' + cq, None, None) if opaque else False
        if sr:
            sx = self.emit(st, 'new', cq, None, args, kw, n, bound=bound, raised=True, eid=eid)
            pre = [(sx, 'x', ('exc', sr if isinstance(sr, tuple) and sr else None, eid))]
        else:
            pre = []
        s, o = self.alloc(st, n, cls.name, cls=cq)
        s = self.emit(s, 'new', cq, None, args, kw, n, bound=bound, result=o, eid=eid, target=f)
        if f is None or opaque or isexc and False:
            if opaque:
                for i, a in enumerate(args):
                    pass
            return pre + [(s, 'v', o)]
        return pre + [(s2, c, o if c == 'v' else v) for s2, c, v in self.call_fn(s, f, o, args, kw, n)]

    # ------------------------------------------------------------------ builtins / external
    def call_ext(self, st, d, args, kw, n):
        d = bm.ext_const(d)[1] if bm.ext_const(d)[0] == 'ext' else d
        h = getattr(self, 'b_' + d.replace('.', '_'), None)
        if h is not None and not any(a[0] == 'star' for a in args):
            r = h(st, args, kw, n)
            if r is not None:
                return r
        if d.startswith('six.iter') and len(args) == 1:
            return self.call_method(st, args[0], d[8:], [], {}, n)
        if d == 'functools.partial' and args:
            return [(st, 'v', ('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]
        import builtins
        if bm.is_pure_ext(d):
            t = ('op', d, tuple(args) + tuple(('tup', (K(k), v)) for k, v in sorted(kw.items())))
            exc = bm.EXC.get(d, None)
            if exc and self.should_raise(d, None, exc):
                s = self.emit(st, 'pure', d, None, args, kw, n, raised=True, eid=self.eid(n, d))
                return [(s, 'x', ('exc', exc, self.eid(n, d))), (st, 'v', t)]
            return [(st, 'v', t)]
        if '.' not in d and hasattr(builtins, d):
            b = getattr(builtins, d)
            if isinstance(b, type) and issubclass(b, BaseException):
                t = ('exc', (d,), self.eid(n, d), tuple(args))
                return [(st, 'v', t)]
            if d in ('sum', 'sorted', 'reversed', 'enumerate', 'zip', 'map', 'filter', 'range', 'list', 'tuple', 'set',
                     'frozenset', 'abs', 'round', 'repr', 'ord', 'chr', 'hash', 'id', 'any', 'all', 'callable', 'divmod',
                     'bytearray', 'bytes', 'float', 'memoryview', 'hex', 'pow', 'object', 'vars', 'dir', 'type', 'issubclass'):
                return [(st, 'v', ('op', d, tuple(args) + tuple(('tup', (K(k), v)) for k, v in sorted(kw.items()))))]
        null = None
        if any(d == p or (p.endswith('.') and d.startswith(p)) for p in bm.NONNULL_EXT) or d == 'open':
            null = T_
        if d.endswith('.close') or d in ('print', 'setattr'):
            pass
        return self.opaque(st, d, None, args, kw, n, null=null, excs=bm.EXC.get(d),
                           nomut=d in ('print',) or d.startswith('datetime.') or d.startswith('uuid.') or
                           d in ('io.BytesIO', 'zlib.compressobj', 'zlib.decompressobj', 'hashlib.new'))

    def b_len(self, st, args, kw, n):
        if len(args) != 1:
            return None
        items = self.items_of(st, args[0])
        if items is not None:
            return [(st, 'v', K(len(items)))]
        st, bad = self.hazard(st, args[0], n, 'TypeError')
        if st is None:
            return bad
        t = mk_len(args[0])
        if t[0] == 'len':
            s = st.set_null(args[0], ET)
            return bad + [(s if s is not None else st, 'v', t)]
        return bad + [(st, 'v', t)]

    def b_min(self, st, args, kw, n):
        return self._minmax(st, args, True)

    def b_max(self, st, args, kw, n):
        return self._minmax(st, args, False)

    def _minmax(self, st, args, mn):
        if len(args) == 1:
            it = self.items_of(st, args[0])
            if it is None or not it:
                return None
            args = list(it)
        return self._fold_minmax(st, args, mn)

    def _fold_minmax(self, st, args, mn):
        if len(args) == 1:
            return [(st, 'v', args[0])]
        outs = self._fold_minmax(st, args[1:], mn)
        res = []
        for s, c, v in outs:
            for s2, b in self.less(s, args[0], v, False) if mn else self.less(s, v, args[0], False):
                res.append((s2, 'v', args[0] if b else v))
        return res

    def b_int(self, st, args, kw, n):
        if not args:
            return [(st, 'v', ZERO)]
        if all(is_k(a) for a in args):
            try:
                return [(st, 'v', K(int(*[a[2] for a in args])))]
            except (ValueError, TypeError) as e:
                return [(st, 'x', ('exc', (type(e).__name__,), self.eid(n, 'int')))]
        if len(args) == 1 and ttype(args[0]) == 'int':
            return [(st, 'v', args[0])]
        t = ('op', 'int', tuple(args))
        out = []
        ex = ('ValueError',) if ttype(args[0]) in ('str', 'bytes') else ('ValueError', 'TypeError')
        if self.cfg.hazards is not None and not (is_k(args[0]) and args[0][2] is None or self.nullable(args[0]) and 'N' in st.nullness(args[0])):
            ex = ('ValueError',)
        r = self.should_raise('int', None, ex)
        if r:
            ex = r if isinstance(r, tuple) and r is not True else ex
            s = self.emit(st, 'pure', 'int', None, args, kw, n, raised=True, eid=self.eid(n, 'int'))
            out.append((s, 'x', ('exc', ex, self.eid(n, 'int'))))
        s = st.set_null(args[0], ET)
        if s is not None:
            out.append((s, 'v', t))
        return out

    def b_str(self, st, args, kw, n):
        if not args:
            return [(st, 'v', K(''))]
        if len(args) > 1:
            return [(st, 'v', ('m', 'decode', args[0], tuple(args[1:])))]
        a = args[0]
        if is_k(a) and not isinstance(a[2], bytes):
            return [(st, 'v', K(str(a[2])))]
        if ttype(a) == 'str':
            return [(st, 'v', a)]
        cls = self.type_of(st, a)
        if cls and (self.prog.lookup(cls, '__str__') or ('',))[0] == 'fn':
            return self.call_method(st, a, '__str__', [], {}, n)
        return [(st, 'v', ('op', 'str', (a,)))]

    def b_bool(self, st, args, kw, n):
        if not args:
            return [(st, 'v', FALSE)]
        return [(s, 'v', K(b)) for s, b in self.truth(st, args[0])]

    def b_isinstance(self, st, args, kw, n):
        if len(args) != 2:
            return None
        a, c = args
        cs = c[1] if c[0] == 'tup' else (c,)
        cls = self.type_of(st, a)
        if cls:
            mro = self.prog.mro(cls)
            if a[0] == 'obj':
                return [(st, 'v', K(any(x[0] == 'cls' and x[1] in mro for x in cs)))]
            if any(x[0] == 'cls' and x[1] in mro for x in cs):
                return [(st, 'v', TRUE)]
        if a[0] == 'obj' and st.heap(a, '@kind') is not None:
            k = st.heap(a, '@kind')[2]
            if all(x[0] == 'ext' for x in cs):
                return [(st, 'v', K(any(x[1] == k or k == 'dict' and x[1].endswith('Mapping') for x in cs)))]
        tt = ttype(a)
        if tt and tt not in ('str?',) and all(x[0] in ('ext', 'cls') for x in cs):
            m = {'none': 'NoneType'}.get(tt, tt)
            hit = any(x == ('ext', m) or (m == 'bool' and x == ('ext', 'int')) for x in cs)
            return [(st, 'v', K(hit))]
        if st.nullness(a) == N_:
            return [(st, 'v', FALSE)]
        for x in cs:
            # a value cannot be both str and bytes
            pass
        outs = []
        atom = ('cond', ('op', 'isinstance', (a, c)))
        for s, v in self.branch_lit(st, atom):
            if v:
                s = s.set_null(a, ET)
                if s is None:
                    continue
                clash = False
                for (x, val) in st.lits.items():
                    if val and x[0] == 'cond' and x[1][0] == 'op' and x[1][1] == 'isinstance' and x[1][2][0] == a:
                        y = x[1][2][1]
                        if y[0] == 'ext' and c[0] == 'ext' and {y[1], c[1]} == {'str', 'bytes'}:
                            clash = True
                if clash:
                    continue
            outs.append((s, 'v', K(v)))
        return outs

    def b_hasattr(self, st, args, kw, n):
        if len(args) != 2 or not is_k(args[1], 'str'):
            return None
        o, a = args[0], args[1][2]
        if st.heap(o, a) is not None:
            return [(st, 'v', TRUE)]
        cls = self.type_of(st, o)
        if cls:
            l = self.prog.lookup(cls, a)
            if l and l[0] in ('fn', 'attr'):
                return [(st, 'v', TRUE)]
            if o[0] == 'obj' and (not l or l[0] != 'extbase'):
                return [(st, 'v', FALSE)]
        return [(s, 'v', K(v)) for s, v in self.branch_lit(st, ('cond', ('op', 'hasattr', (o, args[1]))))]

    def b_getattr(self, st, args, kw, n):
        if len(args) < 2 or not is_k(args[1], 'str'):
            return None
        if len(args) == 2:
            return self.getattr(st, args[0], args[1][2], n)
        outs = []
        for s, c, v in self.b_hasattr(st, args[:2], {}, n):
            if v == TRUE:
                outs.extend(self.getattr(s, args[0], args[1][2], n))
            else:
                outs.append((s, 'v', args[2]))
        return outs

    def b_setattr(self, st, args, kw, n):
        if len(args) == 3 and is_k(args[1], 'str'):
            return self.setattr(st, args[0], args[1][2], args[2], n)
        return None

    def b_iter(self, st, args, kw, n):
        if len(args) == 2:
            return [(st, 'v', ('op', 'iter2', tuple(args)))]
        a = args[0]
        if a[0] in ('gen',) or a[0] == 'op' and a[1] in ('iter', 'iter2'):
            return [(st, 'v', a)]
        cls = self.type_of(st, a)
        if cls and (self.prog.lookup(cls, '__iter__') or ('',))[0] == 'fn':
            return self.call_method(st, a, '__iter__', [], {}, n)
        if self.items_of(st, a) is not None:
            return [(st, 'v', ('op', 'iter', (a,)))]
        return [(st, 'v', ('op', 'iter', (a,)))]

    def b_next(self, st, args, kw, n):
        a = args[0]
        cls = self.type_of(st, a)
        if cls and (self.prog.lookup(cls, '__next__') or ('',))[0] == 'fn':
            return self.call_method(st, a, '__next__', [], {}, n)
        eid = self.eid(n, 'next')
        outs = self.opaque(st, 'next', a, list(args[1:]), kw, n, kind='next', nomut=True, excs=('StopIteration',))
        if len(args) > 1:
            s = self.emit(st, 'stop', 'stop', a, [], {}, n, eid=eid)
            outs = [o for o in outs if o[1] == 'v'] + [(s, 'v', args[1])]
        return outs

    def b_dict(self, st, args, kw, n):
        if not args and '**' not in kw:
            s, o = self.alloc(st, n, 'dict', items=('dct', tuple((K(k), v) for k, v in kw.items())))
            return [(s, 'v', o)]
        if len(args) == 1:
            d = self.dict_of(st, args[0])
            if d is not None and not kw:
                s, o = self.alloc(st, n, 'dict', items=('dct', tuple(d)))
                return [(s, 'v', o)]
            s, o = self.alloc(st, n, 'dict', items=('op', 'dict', (args[0],)))
            for k, v in kw.items():
                s.store[('hdr', o, key_const(K(k)))] = v
            return [(s, 'v', o)]
        return None

    def b_list(self, st, args, kw, n):
        if not args:
            s, o = self.alloc(st, n, 'list', items=('lst', ()))
            return [(s, 'v', o)]
        it = self.items_of(st, args[0])
        if it is not None:
            s, o = self.alloc(st, n, 'list', items=('lst', tuple(it)))
            return [(s, 'v', o)]
        return [(st, 'v', ('op', 'list', (args[0],)))]

    def b_tuple(self, st, args, kw, n):
        it = self.items_of(st, args[0]) if args else ()
        if it is not None:
            return [(st, 'v', ('tup', tuple(it)))]
        return [(st, 'v', ('op', 'tuple', (args[0],)))]

    def b_range(self, st, args, kw, n):
        return [(st, 'v', ('op', 'range', tuple(args)))]

    def b_zip(self, st, args, kw, n):
        return [(st, 'v', ('op', 'zip', tuple(args)))]

    def b_enumerate(self, st, args, kw, n):
        if len(args) == 1 and 'start' in kw:
            args = [args[0], kw['start']]
        return [(st, 'v', ('op', 'enumerate', tuple(args)))]

    def b_reversed(self, st, args, kw, n):
        return [(st, 'v', ('op', 'reversed', tuple(args)))]

    def b_any(self, st, args, kw, n):
        it = self.items_of(st, args[0]) if args else None
        if it is None:
            return None
        outs, cur = [], [st]
        for x in it:
            nxt = []
            for s in cur:
                for s2, b in self.truth(s, x):
                    (outs.append((s2, 'v', TRUE)) if b else nxt.append(s2))
            cur = nxt
        return outs + [(s, 'v', FALSE) for s in cur]

    def b_all(self, st, args, kw, n):
        it = self.items_of(st, args[0]) if args else None
        if it is None:
            return None
        outs, cur = [], [st]
        for x in it:
            nxt = []
            for s in cur:
                for s2, b in self.truth(s, x):
                    (nxt.append(s2) if b else outs.append((s2, 'v', FALSE)))
            cur = nxt
        return outs + [(s, 'v', TRUE) for s in cur]
