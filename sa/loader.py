"""Parses /repo's warcio package and resolves names: modules, classes (MRO),
functions (nested ones too), imports, module and class constants."""
import ast
import builtins
import os


class AnalysisBroken(Exception):
    """the source no longer has the shape the analysis needs (exit 2)"""


SIX_MOVES = {
    'six.moves.http_client': 'http.client',
    'six.moves.urllib.parse': 'urllib.parse',
    'six.moves.zip': 'zip', 'six.moves.range': 'range', 'six.moves.map': 'map',
    'six.moves.filter': 'filter', 'six.moves.input': 'input',
    'six.BytesIO': 'io.BytesIO', 'six.StringIO': 'io.StringIO',
    'six.binary_type': 'bytes', 'six.text_type': 'str', 'six.next': 'next',
    'six.Iterator': 'object',
}


def norm_ext(d):
    for k, v in SIX_MOVES.items():
        if d == k or d.startswith(k + '.'):
            return v + d[len(k):]
    if d.startswith('builtins.'):
        return d[9:]
    return d


class Func(object):
    def __init__(self, q, node, mod, cls, outer):
        self.q = q
        self.node = node
        self.mod = mod
        self.cls = cls          # owning class q, for methods
        self.outer = outer      # enclosing function q, for nested functions
        self.name = getattr(node, 'name', '<lambda>')
        self.decos = []
        self.kind = 'fn'        # fn/method/static/class/property/setter
        a = node.args
        self.posargs = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.posargs[len(self.posargs) - len(a.defaults):], a.defaults))
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.is_gen = False
        self.globals_ = set()
        self.nonlocals = set()
        self.locals_ = set(self.posargs) | set(self.kwonly)
        if self.vararg:
            self.locals_.add(self.vararg)
        if self.kwarg:
            self.locals_.add(self.kwarg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self._scan(s)
        self.locals_ -= self.globals_
        self.locals_ -= self.nonlocals

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals_.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Global):
            self.globals_.update(n.names)
        if isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals_.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals_.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.locals_.add((a.asname or a.name).split('.')[0])
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # comprehension targets are their own scope
            for g in n.generators:
                self._scan(g.iter)
            return
        for c in ast.iter_child_nodes(n):
            self._scan(c)

    @property
    def file(self):
        return self.mod.path

    def where(self):
        return '%s:%d %s' % (self.mod.relpath, self.node.lineno, self.q.split(':')[1])


class Class(object):
    def __init__(self, q, node, mod):
        self.q = q
        self.node = node
        self.mod = mod
        self.name = node.name
        self.bases = []       # resolved refs: ('cls', q) or ('ext', d)
        self.methods = {}     # name -> Func q
        self.setters = {}
        self.attrs = {}       # name -> expr node
        self.inst_attrs = set()   # attributes stored through self in some method


class Module(object):
    def __init__(self, name, path, relpath, tree, src):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.src = src
        self.scope = {}       # name -> list of bindings (kind, payload, lineno)


class Program(object):
    def __init__(self, root='/repo', pkg='warcio', extra=None):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.nested = {}       # (outer q, name) -> Func q
        sources = {}
        if extra is not None:
            sources = extra
        else:
            base = os.path.join(root, pkg)
            if not os.path.isdir(base):
                raise AnalysisBroken('no package directory %s' % base)
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d != '__pycache__')
                for f in sorted(fn):
                    if f.endswith('.py'):
                        p = os.path.join(dp, f)
                        rel = os.path.relpath(p, root)
                        name = rel[:-3].replace(os.sep, '.')
                        if name.endswith('.__init__'):
                            name = name[:-9]
                        with open(p, encoding='utf-8') as fh:
                            sources[name] = (p, rel, fh.read())
        for name, (p, rel, src) in sources.items():
            try:
                tree = ast.parse(src, p)
            except SyntaxError as e:
                raise AnalysisBroken('%s does not parse: %s' % (rel, e))
            self.modules[name] = Module(name, p, rel, tree, src)
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                for c in ast.iter_child_nodes(node):
                    c._parent = node
            self._collect(m)
        for c in self.classes.values():
            for b in c.node.bases:
                c.bases.append(self._static_ref(c.mod, b))
        for c in self.classes.values():
            for fq in list(c.methods.values()) + list(c.setters.values()):
                f = self.funcs[fq]
                if not f.posargs:
                    continue
                selfname = f.posargs[0]
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        if isinstance(n.value, ast.Name) and n.value.id == selfname:
                            c.inst_attrs.add(n.attr)
        # any attribute stored on anything, anywhere (for foreign stores)
        self.stored_attrs = set()
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stored_attrs.add(n.attr)
        # those stored on something else than the self of a method: a class attribute of that name is no constant
        own = set()
        for c in self.classes.values():
            for n, fq in c.methods.items():
                f = self.funcs[fq]
                if f.kind not in ('class', 'static') and f.posargs:
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.posargs[0]:
                            own.add(id(x))
        self.class_stored = set()
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in own:
                    self.class_stored.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.class_stored.add(n.args[1].value)
        self.method_index = {}
        for c in self.classes.values():
            for n, fq in c.methods.items():
                self.method_index.setdefault(n, []).append((c.q, fq))
        self._field_types()

    # -- collection
    def _collect(self, m):
        def bind(name, kind, payload, ln):
            m.scope.setdefault(name, []).append((kind, payload, ln))

        def stmts(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = '%s:%s' % (m.name, s.name)
                    self._func(q, s, m, None, None)
                    bind(s.name, 'fn', q, s.lineno)
                elif isinstance(s, ast.ClassDef):
                    q = '%s:%s' % (m.name, s.name)
                    self._class(q, s, m)
                    bind(s.name, 'cls', q, s.lineno)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            bind(a.asname, 'imp', a.name, s.lineno)
                        else:
                            bind(a.name.split('.')[0], 'imp', a.name.split('.')[0], s.lineno)
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ''
                    if s.level:
                        parts = m.name.split('.')
                        ispkg = m.relpath.endswith('__init__.py')
                        up = s.level - (1 if ispkg else 0)
                        parts = parts[:len(parts) - up] if up else parts
                        base = '.'.join(parts + ([s.module] if s.module else []))
                    for a in s.names:
                        bind(a.asname or a.name, 'imp', base + '.' + a.name, s.lineno)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            bind(t.id, 'expr', s.value, s.lineno)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for i, e in enumerate(t.elts):
                                if isinstance(e, ast.Name):
                                    if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts):
                                        bind(e.id, 'expr', s.value.elts[i], s.lineno)
                                    else:
                                        bind(e.id, 'opaque', None, s.lineno)
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        bind(s.target.id, 'expr', s.value, s.lineno)
                elif isinstance(s, ast.AugAssign):
                    if isinstance(s.target, ast.Name):
                        bind(s.target.id, 'opaque', None, s.lineno)
                elif isinstance(s, ast.If):
                    stmts(s.body)
                    stmts(s.orelse)
                elif isinstance(s, ast.Try):
                    stmts(s.body)
                    for h in s.handlers:
                        stmts(h.body)
                    stmts(s.orelse)
                    stmts(s.finalbody)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    stmts(s.body)
        stmts(m.tree.body)

    def _func(self, q, node, m, cls, outer):
        f = Func(q, node, m, cls, outer)
        while q in self.funcs:
            q += "'"
            f.q = q
        self.funcs[q] = f
        for d in getattr(node, 'decorator_list', []):
            try:
                f.decos.append(ast.unparse(d))
            except Exception:
                f.decos.append('?')
        if cls:
            f.kind = 'method'
            for d in f.decos:
                if d == 'staticmethod':
                    f.kind = 'static'
                elif d == 'classmethod':
                    f.kind = 'class'
                elif d == 'property' or d.endswith('cached_property'):
                    f.kind = 'property'
                elif d.endswith('.setter'):
                    f.kind = 'setter'
            if f.name == '__new__':
                f.kind = 'static'
        self._nested(f)
        return f

    def _nested(self, f):
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = '%s.<%s>' % (f.q, c.name)
                    g = self._func(q, c, f.mod, None, f.q)
                    c._fq = g.q
                elif isinstance(c, ast.Lambda):
                    q = '%s.<lambda@%d:%d>' % (f.q, c.lineno, c.col_offset)
                    g = Func(q, c, f.mod, None, f.q)
                    self.funcs[q] = g
                    c._fq = q
                    self._nested(g)
                elif isinstance(c, ast.ClassDef):
                    q = '%s.<%s>' % (f.q, c.name)
                    self._class(q, c, f.mod)
                    c._cq = q
                else:
                    walk(c)
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        for s in body:
            class W(object):
                pass
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                fake = ast.Module(body=[s], type_ignores=[]) if not isinstance(s, ast.Lambda) else ast.Expr(value=s)
                walk(fake)
            else:
                walk(s)

    def _class(self, q, node, m):
        c = Class(q, node, m)
        self.classes[q] = c

        def stmts(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fq = '%s.%s' % (q, s.name)
                    f = self._func(fq, s, m, q, None)
                    if f.kind == 'setter':
                        c.setters[s.name] = f.q
                    else:
                        c.methods[s.name] = f.q
                        c.attrs.pop(s.name, None)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                                c.methods[t.id] = c.methods[s.value.id]
                            else:
                                c.attrs[t.id] = s.value
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        c.attrs[s.target.id] = s.value
                elif isinstance(s, (ast.If, ast.Try)):
                    stmts(s.body)
                    stmts(s.orelse)
        stmts(node.body)

    # -- resolution
    def resolve_dotted(self, d):
        """dotted import path -> ref term"""
        if d in self.modules:
            return ('mod', d)
        parts = d.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.modules:
                r = self.module_name(mn, parts[i])
                if r is None:
                    return ('ext', d)
                for p in parts[i + 1:]:
                    if r[0] == 'ext':
                        r = ('ext', r[1] + '.' + p)
                    else:
                        return ('ext', d)
                return r
        return ('ext', norm_ext(d))

    def module_name(self, mn, name, before=None):
        """ref term for a module-level name, or None; ('expr', mod, node) for constants"""
        m = self.modules[mn]
        bs = m.scope.get(name)
        if not bs:
            if mn + '.' + name in self.modules:
                return ('mod', mn + '.' + name)
            return None
        if before is not None:
            bs = [b for b in bs if b[2] < before]
            if not bs:
                return None
        if len(bs) > 1:
            kinds = set((b[0], b[1] if b[0] != 'expr' else ast.dump(b[1])) for b in bs)
            imps = [b for b in bs if b[0] == 'imp']
            if len(kinds) == 1:
                pass
            elif len(imps) == len(bs):
                bs = bs[:1]          # try: import a / except ImportError: import b
            elif imps and all(b[0] in ('imp', 'fn') for b in bs):
                bs = imps[:1]
            else:
                return ('gbl', mn, name)
        k, p, ln = bs[-1]
        if k == 'fn':
            return ('fn', p)
        if k == 'cls':
            return ('cls', p)
        if k == 'imp':
            return self.resolve_dotted(p)
        if k == 'expr':
            return ('expr', mn, p, ln)
        return ('gbl', mn, name)

    def _static_ref(self, mod, e):
        if isinstance(e, ast.Name):
            r = self.module_name(mod.name, e.id)
            if r is None:
                return ('ext', norm_ext(e.id))
            if r[0] == 'expr':
                return self._static_ref(mod, r[2])
            return r
        if isinstance(e, ast.Attribute):
            b = self._static_ref(mod, e.value)
            if b[0] == 'ext':
                return ('ext', norm_ext(b[1] + '.' + e.attr))
            if b[0] == 'mod':
                r = self.module_name(b[1], e.attr)
                return r or ('ext', b[1] + '.' + e.attr)
        return ('ext', '?')

    def mro(self, cq):
        out = []
        todo = [('cls', cq)]
        while todo:
            r = todo.pop(0)
            if r[0] == 'cls' and r[1] in self.classes:
                if r[1] not in out:
                    out.append(r[1])
                    todo = list(self.classes[r[1]].bases) + todo
            elif r[0] == 'ext':
                if r[1] not in out and r[1] != 'object':
                    out.append(r[1])
        return out

    def lookup(self, cq, name, after=None):
        """-> ('fn', Func) | ('attr', classq, expr) | ('extbase', dotted) | None"""
        seen_after = after is None
        for c in self.mro(cq):
            if not seen_after:
                if c == after:
                    seen_after = True
                continue
            if c in self.classes:
                k = self.classes[c]
                if name in k.methods:
                    return ('fn', self.funcs[k.methods[name]])
                if name in k.attrs:
                    return ('attr', c, k.attrs[name])
            else:
                return ('extbase', c)
        return None

    def setter(self, cq, name):
        for c in self.mro(cq):
            if c in self.classes and name in self.classes[c].setters:
                return self.funcs[self.classes[c].setters[name]]
        return None

    def is_inst_attr(self, cq, name):
        for c in self.mro(cq):
            if c in self.classes and name in self.classes[c].inst_attrs:
                return True
        for c in self.classes.values():
            if cq in self.mro(c.q) and name in c.inst_attrs:
                return True
        return False

    def subclasses(self, cq):
        return [c.q for c in self.classes.values() if cq in self.mro(c.q)]

    def _field_types(self):
        self.field_types = {}
        for c in self.classes.values():
            for fq in c.methods.values():
                f = self.funcs[fq]
                if not f.posargs:
                    continue
                sn = f.posargs[0]
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and
                                    t.value.id == sn):
                                self._ftype(c, t.attr, n.value, f)
        # drop ambiguous unless they share a hierarchy (then keep the common root)

    def _ftype(self, c, attr, e, f):
        key = (c.q, attr)
        cur = self.field_types.setdefault(key, set())
        if isinstance(e, ast.IfExp):
            self._ftype(c, attr, e.body, f)
            self._ftype(c, attr, e.orelse, f)
            return
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                self._ftype(c, attr, v, f)
            return
        if isinstance(e, ast.Constant) and e.value is None:
            return
        if isinstance(e, ast.Call):
            r = self._static_ref(f.mod, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else ('ext', '?')
            if isinstance(e.func, ast.Name) and e.func.id in f.locals_:
                r = ('ext', '?')
            if r[0] == 'cls':
                cur.add(r[1])
                return
        cur.add('?')

    def field_type(self, cq, attr):
        ts = set()
        for c in self.mro(cq):
            ts |= self.field_types.get((c, attr), set())
        if len(ts) == 1 and '?' not in ts:
            return next(iter(ts))
        return None

    def cls_by_name(self, name):
        r = [c.q for c in self.classes.values() if c.name == name]
        return r[0] if len(r) == 1 else None

    def exc_ancestors(self, name):
        """names of all base exceptions of a builtin or repo exception class"""
        if name in self.classes:
            out = []
            for c in self.mro(name):
                if c in self.classes:
                    out.append(c)
                else:
                    out += self.exc_ancestors(c)
            return out
        short = name.split('.')[-1]
        b = getattr(builtins, short, None)
        if name == short and isinstance(b, type) and issubclass(b, BaseException):
            return [x.__name__ for x in b.__mro__ if x is not object]
        if name == 'binascii.Error':
            return ['binascii.Error', 'ValueError', 'Exception', 'BaseException']
        if name == 'io.UnsupportedOperation':
            return [name, 'OSError', 'ValueError', 'Exception', 'BaseException']
        if name in ('zlib.error',):
            return [name, 'Exception', 'BaseException']
        return [name, 'Exception', 'BaseException']
