"""Abstract state: store (locals + heap), facts (nullness, literals, linear
inequalities), field versions, and the event trace (a cons list)."""
from .terms import *

NET = frozenset('NET')
ET = frozenset('ET')
N_ = frozenset('N')
E_ = frozenset('E')
T_ = frozenset('T')
NE = frozenset('NE')

TRUTHY_EXT = ('io.BytesIO', 'io.StringIO', 'tempfile.', 'threading.', 'zlib.', 'hashlib.', 'open',
              'contextlib.')


class State(object):
    __slots__ = ('store', 'null', 'lits', 'nums', 'vers', 'trace')

    def __init__(self):
        self.store = {}
        self.null = {}
        self.lits = {}
        self.nums = frozenset()
        self.vers = {}
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.null = dict(self.null)
        s.lits = dict(self.lits)
        s.nums = self.nums
        s.vers = dict(self.vers)
        s.trace = self.trace
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.null.items()),
                frozenset(self.lits.items()), self.nums, frozenset(self.vers.items()))

    # -- store
    def set(self, k, v):
        s = self.copy()
        s.store[k] = v
        return s

    def heap(self, obj, attr):
        return self.store.get(('h', obj, attr))

    # -- nullness
    def canon(self, t):
        """-> (canonical term, mapping applied to result)"""
        while True:
            if t[0] == 'len':
                t = t[1]
                continue
            if t[0] == 'op' and t[1] in ('bool', 'native') and len(t[2]) == 1:
                if t[1] == 'bool':
                    return t, False
                t = t[2][0]
                continue
            break
        if t[0] == 'lin':
            # sign normalisation
            if t[2] and t[2][0][1] < 0:
                t = lin_scale(t, -1)
        return t, True

    def nullness(self, t):
        base = self._intrinsic(t)
        c, _ = self.canon(t)
        if t[0] == 'len' or c is not t:
            base = base & self._fact(c) if t[0] != 'len' else self._lenset(c)
        else:
            f = self.null.get(c)
            if f is not None:
                base = base & f
        return base

    def _lenset(self, c):
        r = (self._fact(c) & self._intrinsic(c)) - N_
        return r or ET

    def _fact(self, c):
        return self.null.get(c, NET)

    def _intrinsic(self, t):
        tag = t[0]
        if tag == 'k':
            if t[2] is None:
                return N_
            return T_ if t[2] else E_
        if tag in ('cls', 'fn', 'clo', 'ext', 'bm', 'gen', 'mod', 'partial', 'super', 'exc'):
            return T_
        if tag == 'obj':
            it = self.store.get(('h', t, '@items'))
            if it is not None:
                if it[0] in ('lst', 'set', 'dct'):
                    if not it[1]:
                        return E_
                    if any(x[0] != 'star' for x in it[1]):
                        return T_
                return ET
            ty = self.store.get(('h', t, '@class'))
            if ty is not None and ty[0] == 'cls' and not State.maybe_falsy(ty[1]):
                return T_
            return ET
        if tag in ('tup', 'lst', 'set', 'dct'):
            return T_ if t[1] else E_
        if tag == 'lin':
            return ET
        if tag == 'len':
            return ET
        if tag == 'cat':
            res = E_
            for p in t[1]:
                if is_k(p) and p[2]:
                    return T_
                n = self.nullness(p)
                if n == T_:
                    return T_
                if n != E_:
                    res = ET
            return res
        if tag == 'add':
            ns = [self.nullness(p) for p in t[1]]
            if all(n == E_ for n in ns):
                return E_
            # operands of unknown type: data (a sum of numbers is a linear form)
            if T_ in ns:
                return T_
            return ET
        if tag == 'm':
            if t[1] in ('group',):
                return NET
            if t[1] in STR_METHODS and t[1] not in ('format', 'join', 'replace') and self.nullness(t[2]) == E_:
                return E_
            if t[1] in ('lower', 'upper', 'encode', 'decode') and self.nullness(t[2]) == T_:
                return T_
            if t[1] in ('split', 'rsplit', 'partition', 'rpartition') and t[3]:
                return T_
            return ET
        if tag == 'op':
            n = t[1]
            if n in ('iter', 'range', 'zip', 'enumerate', 'next', 'badadd', 'iter2'):
                return T_
            if n in ('str', 'int', 'bool', 'not', 'eq', 'lt', 'in', 'isinstance', 'hasattr', 'list', 'tuple',
                     'dict', 'bytes', 'any', 'all'):
                if n == 'bool':
                    x = self.nullness(t[2][0]) if t[2] else E_
                    if x == T_:
                        return T_
                    if not (x & T_):
                        return E_
                return ET
            return NET
        if tag == 'slice':
            return ET
        if tag == 'old':
            return self._intrinsic(t[2]) if t[2][0] not in ('obj', 'ev') else NET
        return NET

    maybe_falsy = staticmethod(lambda q: False)

    def set_null(self, t, subset):
        """refined copy, or None when infeasible"""
        if is_k(t) or t[0] in ('tup', 'lst', 'dct', 'set'):
            return self if self._intrinsic(t) & subset else None
        if t[0] == 'op' and t[1] == 'bool' and t[2]:
            x = t[2][0]
            if subset & ET == ET:
                return self
            if 'T' in subset:
                return self.set_null(x, T_)
            return self.set_null(x, NE)
        cur = self.nullness(t)
        new = cur & subset
        if not new:
            return None
        if new == cur:
            return self
        c, _ = self.canon(t)
        if t[0] == 'len':
            new2 = self._fact(c) & self._intrinsic(c) & new
            if not new2:
                return None
            new = new2
        s = self.copy()
        s.null[c] = new
        # literal consistency
        if 'T' not in new:
            for (a, v) in self.lits.items():
                if a[0] == 'eq' and v and a[1] == c and is_k(a[2]) and a[2][2]:
                    return None
                if a[0] in ('cond',) and v and a[1][0] == 'm' and a[1][2] == c:
                    return None
        if new == T_:
            if c[0] == 'm' and c[1] in STR_METHODS and c[1] not in ('replace', 'join', 'format', 'ljust', 'rjust', 'zfill'):
                s = s.set_null(c[2], frozenset('T'))
                if s is None:
                    return None
            if c[0] == 'm' and c[1] in ('startswith', 'endswith') and c[3] and self.nullness(c[3][0]) == T_:
                s = s.set_null(c[2], frozenset('T'))
                if s is None:
                    return None
            if c[0] == 'slice':
                s = s.set_null(c[1], frozenset('T'))
                if s is None:
                    return None
        if new == E_ and c[0] in ('cat',):
            for p in c[1]:
                s = s.set_null(p, E_)
                if s is None:
                    return None
        if new == E_ and (c[0] in ('lin',) or ttype(c) in ('int', None)):
            # equal to zero: must not contradict the inequalities
            one = lin_add(K(1), c, -1)      # 1 - c <= 0 means c >= 1
            if c[0] == 'lin':
                if s.prove_le(one) or s.prove_le(lin_add(c, K(1))):
                    return None
            elif self.nums and (self.prove_le(one) or self.prove_le(lin_add(c, K(1)))):
                return None
        return s

    # -- linear facts: each is a term meaning t <= 0
    def nonneg(self, t):
        if t[0] == 'len':
            return True
        if t[0] in ('ev', 'old', 'phi', 'fld', 'sym'):
            return t in State.nonneg_terms
        return False

    nonneg_terms = frozenset()

    def prove_le(self, t, depth=3):
        c, d = lin_parts(t)
        if not d:
            return c <= 0
        # integers known to be zero
        for x, n in list(d.items()):
            nl = self.nullness(x)
            if nl == E_ and (x[0] == 'len' or ttype(x) == 'int' or x[0] in ('sym', 'fld', 'phi', 'ev')):
                del d[x]
        # drop negative coefficients of non-negative terms
        base = dict(d)
        slack = c
        for x, n in list(base.items()):
            if n < 0 and self.nonneg(x):
                if self.nullness(x) == T_:
                    slack += n
                del base[x]
        if not base and slack <= 0:
            return True
        if depth <= 0:
            return False
        t = mk_lin(c, d)
        for f in self.nums:
            fc, fd = lin_parts(f)
            if not any(x in d and (d[x] > 0) == (n > 0) for x, n in fd.items()):
                continue
            if self.prove_le(lin_add(t, f, -1), depth - 1):
                return True
        return False

    def assume_le(self, t):
        c, d = lin_parts(t)
        if not d:
            return self if c <= 0 else None
        if self.prove_le(lin_add(K(1), t, -1), 2):
            return None
        if self.prove_le(t, 2):
            return self
        s = self.copy()
        s.nums = s.nums | frozenset([mk_lin(c, d)])
        return s

    def prove_eq(self, a, b):
        a, b = norm(a), norm(b)
        if a == b:
            return True
        d = lin_add(a, b, -1)
        if d == ZERO:
            return True
        if self.nullness(d) == E_:
            return True
        # lengths of values known to be empty, and numbers known to be zero, add nothing
        c, parts = lin_parts(d)
        rest = {x: n for x, n in parts.items()
                if not (self.nullness(x) == E_ and (x[0] == 'len' or ttype(x) == 'int' or x[0] == 'phi'))}
        if len(rest) == len(parts):
            return False
        if not rest:
            return c == 0
        d = mk_lin(c, rest)
        return self.nullness(d) == E_

    def lit(self, atom, val):
        cur = self.lits.get(atom)
        if cur is not None:
            return self if cur == val else None
        s = self.copy()
        s.lits[atom] = val
        return s

    # -- trace
    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


def norm(t):
    return t
