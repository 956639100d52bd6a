"""Interned provenance terms and their normal forms.

A term says where a value comes from, never what it is at run time.  Terms are
plain nested tuples (hashable, comparable), first element = tag:

  ('k', typename, value)        literal
  ('sym', name)                 entry parameter / entry object
  ('fld', obj, attr, ver)       value an attribute had before the analysed code
                                assigned it (ver counts opaque calls that may
                                have changed it)
  ('ev', eid)                   result of the opaque call at site eid
  ('obj', site)                 object allocated at site (contents on the heap)
  ('phi', loop, key)            value joined at a loop head
  ('old', loop, t)              t of an earlier loop iteration
  ('lin', c, ((t, n), ...))     integer linear form
  ('cat', (t, ...))             ordered str/bytes concatenation
  ('add', (t, ...))             + of operands of unknown type (ordered)
  ('len', t)
  ('m', name, recv, args)       pure method of a value
  ('op', name, args)            pure operation
  ('obs', name, recv, args, v)  read-only query of a mutable object
  ('idx', t, i) / ('slice', ...)
  ('tup', items) ('lst', items) ('dct', pairs) ('set', items)
  ('cls', q) ('fn', q) ('bm', fn, recv) ('clo', q, frame) ('ext', dotted)
  ('gen', fn, bound, site)      un-started generator
"""
from functools import lru_cache


def K(v):
    return ('k', type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
ZERO = K(0)


def is_k(t, *types):
    return t[0] == 'k' and (not types or t[1] in types)


def kval(t):
    return t[2]


def sym(n):
    return ('sym', n)


BYTESY = ('bytes', 'str')

STR_METHODS = {'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'title',
               'casefold', 'capitalize', 'swapcase', 'zfill', 'ljust', 'rjust',
               'format', 'join', 'expandtabs', 'translate'}
LIST_METHODS = {'split', 'rsplit', 'splitlines', 'partition', 'rpartition'}
BOOL_METHODS = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isalnum',
                'isnumeric', 'isdecimal', 'isupper', 'islower', 'isascii'}
INT_METHODS = {'find', 'rfind', 'index', 'rindex', 'count', 'bit_length'}
CODE_METHODS = {'encode', 'decode', 'hex'}
PURE_METHODS = (STR_METHODS | LIST_METHODS | BOOL_METHODS | CODE_METHODS |
                {'find', 'rfind', 'count', 'isoformat', 'strftime', 'utctimetuple',
                 'group', 'groups', 'timestamp', 'timetuple', 'total_seconds'})


def ttype(t):
    """best-effort static type of a term: int/str/bytes/bool/none/list/tuple/dict/'str?'"""
    tag = t[0]
    if tag == 'k':
        return {'NoneType': 'none'}.get(t[1], t[1])
    if tag in ('lin', 'len'):
        return 'int'
    if tag == 'cat':
        for p in t[1]:
            x = ttype(p)
            if x in BYTESY:
                return x
        return 'str?'
    if tag == 'm':
        n = t[1]
        if n in BOOL_METHODS:
            return 'bool'
        if n in INT_METHODS:
            return 'int'
        if n == 'encode':
            return 'bytes'
        if n in ('decode', 'format', 'hex', 'isoformat', 'strftime'):
            return 'str'
        if n in LIST_METHODS:
            return 'list'
        if n in STR_METHODS:
            x = ttype(t[2])
            return x if x in BYTESY else 'str?'
    if tag == 'op':
        n = t[1]
        if n in ('str', 'repr', 'native', 'hexstr', 'b32str'):
            return 'str'
        if n in ('int', 'round', 'ord'):
            return 'int'
        if n in ('bool', 'not', 'isinstance', 'hasattr', 'eq', 'lt', 'in', 'is', 'any', 'all'):
            return 'bool'
        if n == 'bytes':
            return 'bytes'
    if tag in ('tup',):
        return 'tuple'
    if tag == 'lst':
        return 'list'
    if tag == 'dct':
        return 'dict'
    if tag == 'slice':
        return ttype(t[1])
    return None


@lru_cache(maxsize=200000)
def _rk(t):
    return repr(t)


def mk_lin(c, d):
    items = tuple(sorted(((t, n) for t, n in d.items() if n != 0), key=lambda x: _rk(x[0])))
    if not items:
        return K(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ('lin', c, items)


def lin_parts(t):
    """-> (const, {term: coef}) reading t as an integer"""
    if t[0] == 'k' and isinstance(t[2], int):
        return int(t[2]), {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    if t[0] == 'add':
        c, d = 0, {}
        for p in t[1]:
            c2, d2 = lin_parts(p)
            c += c2
            for k, n in d2.items():
                d[k] = d.get(k, 0) + n
        return c, d
    return 0, {t: 1}


def lin_add(a, b, sign=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    d = dict(d1)
    for k, n in d2.items():
        d[k] = d.get(k, 0) + sign * n
    return mk_lin(c1 + sign * c2, d)


def lin_scale(a, n):
    c, d = lin_parts(a)
    return mk_lin(c * n, {k: v * n for k, v in d.items()})


def unstr(t):
    while t[0] == 'op' and t[1] in ('str', 'native') and len(t[2]) == 1:
        t = t[2][0]
    return t


def mk_cat(parts):
    out = []
    for p in parts:
        p = unstr(p)
        if p[0] in ('cat', 'add'):
            sub = list(p[1])
        else:
            sub = [p]
        for s in sub:
            s = unstr(s)
            if is_k(s, 'int'):
                s = K(str(s[2]))
            if is_k(s, 'str', 'bytes') and s[2] in ('', b''):
                # keep a lone empty literal so that the type survives
                if not out:
                    out.append(s)
                continue
            if out and is_k(s, 'str', 'bytes') and is_k(out[-1], 'str', 'bytes'):
                if type(s[2]) is type(out[-1][2]):
                    out[-1] = K(out[-1][2] + s[2])
                    continue
            if out and is_k(out[-1], 'str', 'bytes') and out[-1][2] in ('', b''):
                out[-1] = s
                continue
            out.append(s)
    if not out:
        return K('')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def cat_parts(t):
    if t[0] in ('cat', 'add'):
        return list(t[1])
    return [t]


def mk_add(a, b):
    if a[0] in ('lst', 'tup') and a[0] == b[0]:
        return (a[0], a[1] + b[1])
    ta, tb = ttype(a), ttype(b)
    if is_k(a) and is_k(b):
        try:
            return K(a[2] + b[2])
        except Exception:
            return ('op', 'badadd', (a, b))
    strs = ('str', 'bytes', 'str?')
    if ta in strs or tb in strs:
        return mk_cat([a, b])
    if ta in ('int', 'bool') or tb in ('int', 'bool'):
        return lin_add(a, b)
    pa = a[1] if a[0] == 'add' else (a,)
    pb = b[1] if b[0] == 'add' else (b,)
    return ('add', tuple(pa) + tuple(pb))


def mk_len(t):
    if is_k(t, 'str', 'bytes'):
        return K(len(t[2]))
    if t[0] in ('tup', 'lst', 'set'):
        if not any(x[0] == 'star' for x in t[1]):
            return K(len(t[1]))
    if t[0] in ('cat', 'add'):
        r = ZERO
        for p in t[1]:
            r = lin_add(r, mk_len(p))
        return r
    if t[0] == 'op' and t[1] in ('native',) and False:
        return mk_len(t[2][0])
    return ('len', t)


def subterms(t):
    """all sub-terms, t included"""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if x in seen:
            continue
        seen.add(x)
        if x and isinstance(x[0], str) and not isinstance(x[0], tuple):
            yield x
            if x[0] == 'k':
                continue
            if x[0] == 'ev':
                continue
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)


def contains(t, x):
    return any(s == x for s in subterms(t))


def contains_now(t, x):
    """like contains, but values of earlier loop iterations do not count"""
    if t == x:
        return True
    if not isinstance(t, tuple) or not t or t[0] in ('k', 'ev', 'old', 'older'):
        return False
    return any(contains_now(y, x) for y in t if isinstance(y, tuple))


def subst(t, m):
    """replace sub-terms by mapping m (dict or function)"""
    if not isinstance(t, tuple):
        return t
    if isinstance(m, dict):
        if t in m:
            return m[t]
    if t and t[0] in ('k', 'sym', 'ev', 'obj', 'cls', 'fn', 'ext'):
        return t
    if t and t[0] == 'lin':
        d = {}
        c = t[1]
        for x, n in t[2]:
            y = subst(x, m)
            c2, d2 = lin_parts(y)
            c += n * c2
            for k, v in d2.items():
                d[k] = d.get(k, 0) + n * v
        return mk_lin(c, d)
    return tuple(subst(x, m) for x in t)


def show(t, depth=0):
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return '()'
    tag = t[0]
    if not isinstance(tag, str):
        return '(' + ', '.join(show(x) for x in t) + ')'
    if depth > 8:
        return '...'
    d = depth + 1
    if tag == 'k':
        return repr(t[2])
    if tag == 'sym':
        return t[1]
    if tag == 'fld':
        return show(t[1], d) + '.' + t[2] + ("'" if t[3] else '')
    if tag == 'ev':
        e = t[1]
        return '<%s>' % (e[-1],)
    if tag == 'obj':
        return 'new<%s>' % (t[1][-1],)
    if tag == 'phi':
        return 'phi[%s]' % (show_key(t[2]),)
    if tag == 'old':
        return 'old(%s)' % show(t[2], d)
    if tag == 'lin':
        s = ' + '.join((('%d*' % n) if n != 1 else '') + show(x, d) for x, n in t[2])
        return '(' + s + (' + %d' % t[1] if t[1] else '') + ')'
    if tag in ('cat', 'add'):
        return '[' + (' . ' if tag == 'cat' else ' + ').join(show(x, d) for x in t[1]) + ']'
    if tag == 'len':
        return 'len(' + show(t[1], d) + ')'
    if tag == 'm':
        return show(t[2], d) + '.' + t[1] + '(' + ', '.join(show(x, d) for x in t[3]) + ')'
    if tag == 'op':
        return t[1] + '(' + ', '.join(show(x, d) for x in t[2]) + ')'
    if tag == 'obs':
        return show(t[2], d) + '?' + t[1] + '(' + ', '.join(show(x, d) for x in t[3]) + ')' + ("'%s" % (t[4],) if t[4] else '')
    if tag == 'idx':
        return show(t[1], d) + '[' + show(t[2], d) + ']'
    if tag == 'slice':
        return show(t[1], d) + '[' + ':'.join(show(x, d) for x in t[2:]) + ']'
    if tag in ('tup', 'lst', 'set'):
        return '(' + ', '.join(show(x, d) for x in t[1]) + ')'
    if tag == 'dct':
        return '{' + ', '.join(show(a, d) + ': ' + show(b, d) for a, b in t[1]) + '}'
    if tag in ('cls', 'fn', 'ext'):
        return t[1]
    if tag == 'bm':
        return show(t[2], d) + '.' + show(t[1], d)
    if tag == 'clo':
        return 'closure ' + t[1]
    if tag == 'gen':
        return 'gen ' + show(t[1], d)
    return tag + '(' + ', '.join(show(x, d) for x in t[1:]) + ')'


def show_key(k):
    if k[0] == 'l':
        return k[2]
    return show(k[1]) + '.' + str(k[2])
