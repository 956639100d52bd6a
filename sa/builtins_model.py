"""What the analysis knows about Python builtins and the standard library."""
import ast
from .terms import *

# external functions without side effects
PURE_EXT = (
    'urllib.parse.', 'base64.', 'os.path.', 'json.dumps', 'json.loads', 'calendar.', 'email.utils.', 're.',
    'binascii.', 'textwrap.', 'itertools.', 'operator.', 'string.', 'unicodedata.', 'math.', 'codecs.',
    'collections.OrderedDict', 'collections.namedtuple', 'struct.', 'html.', 'importlib.metadata.', 'stat.',
    'datetime.timedelta', 'datetime.timezone', 'ipaddress.', 'six.ensure_', 'copy.', 'six.int2byte', 'six.u', 'six.b',
)
# classes of exceptions an external call may raise (absent: unknown)
EXC = {
    'base64.b16decode': ('binascii.Error', 'ValueError'),
    'base64.b32decode': ('binascii.Error', 'ValueError'),
    'base64.b64decode': ('binascii.Error', 'ValueError'),
    'base64.urlsafe_b64decode': ('binascii.Error', 'ValueError'),
    'binascii.unhexlify': ('binascii.Error', 'ValueError'),
    'binascii.a2b_base64': ('binascii.Error', 'ValueError'),
    'binascii.a2b_hex': ('binascii.Error', 'ValueError'),
    'hashlib.new': ('ValueError',),
    'base64.b32encode': (), 'base64.b64encode': (), 'base64.b16encode': (),
    'io.BytesIO': (), 'io.StringIO': (), 'threading.Lock': (), 'threading.local': (), 'threading.RLock': (),
    'calendar.timegm': (), 'os.path.basename': (), 'collections.OrderedDict': (), 'uuid.uuid4': (),
    'datetime.datetime.now': (), 'datetime.datetime.utcnow': (), 'print': (), 'datetime.datetime': ('ValueError', 'TypeError'),
}
NONNULL_EXT = ('io.BytesIO', 'io.StringIO', 'tempfile.', 'threading.Lock', 'zlib.', 'hashlib.', 'datetime.', 'uuid.',
               'argparse.', 'http.client.', 'collections.OrderedDict', 'fsspec.')

MAXSIZE = 2 ** 63 - 1
CONSTS = {'six.PY3': True, 'six.PY2': False, 'sys.maxsize': MAXSIZE}


def ext_const(d):
    from .loader import norm_ext
    d = norm_ext(d)
    if d in CONSTS:
        return K(CONSTS[d])
    return ('ext', d)


def is_pure_ext(d):
    return any(d == p or (p.endswith('.') and d.startswith(p)) or (p.endswith('_') and d.startswith(p)) for p in PURE_EXT)


def fold_binop(op, a, b):
    try:
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            r = a * b
            if hasattr(r, '__len__') and len(r) > 10000:
                return None
            return r
        if isinstance(op, ast.FloorDiv):
            return a // b
        if isinstance(op, ast.Mod):
            return a % b
        if isinstance(op, ast.Pow) and isinstance(a, int) and isinstance(b, int) and 0 <= b < 200:
            return a ** b
        if isinstance(op, ast.LShift) and 0 <= b < 200:
            return a << b
        if isinstance(op, ast.BitOr):
            return a | b
        if isinstance(op, ast.BitAnd):
            return a & b
    except Exception:
        return None
    return None


FOLDABLE = PURE_METHODS | {'index', 'rindex'}


def to_term(v):
    if isinstance(v, tuple):
        return ('tup', tuple(to_term(x) for x in v))
    if isinstance(v, list):
        return ('lst', tuple(to_term(x) for x in v))
    if v is None or isinstance(v, (int, float, str, bytes, bool)):
        return K(v)
    return None


def fold_method(recv, name, args):
    """pure method of a literal -> term or None"""
    if not isinstance(recv, (str, bytes)) or name not in FOLDABLE:
        return None
    try:
        return to_term(getattr(recv, name)(*args))
    except Exception:
        return None


def parse_format(tmpl, args, kw):
    """'{0}..{name}'.format -> list of parts or None"""
    import string
    out = []
    auto = 0

    def pos(i):
        # the elements of one final *seq are its first, second, ...
        n = len(args) - 1
        if i >= n >= 0 and args[n][0] == 'star' and not any(x[0] == 'star' for x in args[:n]):
            return ('idx', args[n][1], K(i - n))
        return args[i]
    try:
        for lit, fld, spec, conv in string.Formatter().parse(tmpl):
            if lit:
                out.append(K(lit))
            if fld is None:
                continue
            if fld == '':
                t = pos(auto)
                auto += 1
            elif fld.isdigit():
                t = pos(int(fld))
            elif fld in kw:
                t = kw[fld]
            else:
                return None
            if t[0] == 'star':
                return None
            if spec or (conv and conv != 's'):
                t = ('op', 'fmt', (t, K(spec or ''), K(conv or '')))
            else:
                t = ('op', 'str', (t,))
            out.append(t)
    except Exception:
        return None
    return out


def parse_percent(tmpl, args):
    import re
    out = []
    i = 0
    pos = 0
    s = tmpl if isinstance(tmpl, str) else tmpl.decode('latin-1')
    mk = (lambda x: K(x)) if isinstance(tmpl, str) else (lambda x: K(x.encode('latin-1')))
    for m in re.finditer(r'%([-+0-9.]*)([sdrixbc%])', s):
        if m.start() > pos:
            out.append(mk(s[pos:m.start()]))
        pos = m.end()
        if m.group(2) == '%':
            out.append(mk('%'))
            continue
        if i >= len(args):
            return None
        t = args[i]
        i += 1
        if m.group(1) or m.group(2) not in ('s', 'd', 'i', 'b'):
            t = ('op', 'fmt', (t, K(m.group(0)), K('')))
        else:
            t = ('op', 'str', (t,))
        out.append(t)
    if pos < len(s):
        out.append(mk(s[pos:]))
    if i != len(args):
        return None
    return out
