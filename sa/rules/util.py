"""Questions about values and conditions of a path, shared by the rules."""
from ..core import *

SELF = sym('self')
T_, E_, N_ = frozenset('T'), frozenset('E'), frozenset('N')


def eq_known(st, a, b):
    """True/False/None: are the two values known to be equal / different on this path"""
    if a == b:
        return True
    if a is None or b is None:
        return None
    if is_k(a) and is_k(b):
        return a[2] == b[2]
    for x, y in ((a, b), (b, a)):
        v = st.lits.get(('eq', x, y))
        if v is not None:
            return v
        if is_k(y):
            for k, val in st.lits.items():
                if k[0] == 'eq' and val and x in k[1:]:
                    o = k[2] if k[1] == x else k[1]
                    if is_k(o):
                        return o[2] == y[2]
            n = st.nullness(x)
            if n and not (n & st.nullness(y)):
                return False
    return None


def cond_known(st, pred):
    """truth of the conditions (asked on this path) that satisfy pred"""
    out = set()
    for k, v in st.lits.items():
        if k[0] == 'cond' and pred(k[1]):
            out.add(v)
        elif k[0] == 'eq' and (pred(k[1]) or pred(k[2])):
            out.add(v)
    return out


def truthy(st, t):
    n = st.nullness(t)
    return True if n == T_ else False if 'T' not in n else None


def is_none(st, t):
    n = st.nullness(t)
    return True if n == N_ else False if 'N' not in n else None


def coeffs(t):
    """(const, {atom: coefficient}) of an integer expression"""
    c, parts = lin_parts(t)
    return c, dict(parts)


def calls(p, name=None, recv=None):
    return [e for e in p.events() if e.kind == 'call' and (name is None or tail(e.name) == name) and (recv is None or e.recv == recv)]


def news(p, name):
    return [e for e in p.events() if e.kind == 'new' and (e.name == name or tail(e.name) == name)]


def exc_types(t):
    """names of the exception types of a caught/raised exception value, None when unknown"""
    if t is None or t[0] != 'exc' or t[1] is None:
        return None
    ts = t[1]
    if isinstance(ts, (tuple, list, frozenset)) and not (isinstance(ts, tuple) and ts and ts[0] == 'cls'):
        return {str(x) for x in ts}
    return {str(ts)}


LD = 'warcio.recordloader:ArcWarcRecordLoader'
SHP = 'warcio.statusandheaders:StatusAndHeadersParser'
SHPE = SHP + 'Exception'
SAH = 'warcio.statusandheaders:StatusAndHeaders'
ALF = 'warcio.exceptions:ArchiveLoadFailed'


def parse_raises(name, recv, excs, eng):
    """exceptions of the header parsers, as documented"""
    if tail(name) == 'parse':
        return (SHPE, 'EOFError')
    return None


def const_strs(t):
    """the strings of a literal tuple/list/set, None when it is something else"""
    if t is None or t[0] not in ('tup', 'lst', 'set'):
        return None
    out = []
    for x in t[1]:
        if not is_k(x, 'str'):
            return None
        out.append(x[2])
    return out


def parsers(ctx):
    """attributes of the loader: {'warc': attr, 'response': attr, 'request': attr, 'arc': attr} and constructor paths"""
    if hasattr(ctx, '_parsers'):
        return ctx._parsers
    m = {}
    ps = [p for p in ctx.run(LD, construct=True) if p.kind != 'x']
    for p in ps:
        new = {e.result: e for e in p.events() if e.kind == 'new'}
        for k, v in p.state.store.items():
            if k[0] != 'h' or k[1] != SELF or k[2][0] == '@' or v not in new:
                continue
            e = new[v]
            if e.name == SHP:
                ss = const_strs(e.arg(0, 'statuslist')) or []
                if any(x.startswith('WARC/') for x in ss):
                    m['warc'] = k[2]
                elif any(x.startswith('HTTP/') for x in ss):
                    m['response'] = k[2]
                elif 'GET' in ss:
                    m['request'] = k[2]
            elif 'ARC' in tail(e.name):
                m['arc'] = k[2]
    ctx._parsers = (m, ps)
    return ctx._parsers


def lossy_len(ln):
    """a length taken from changed data is no length of the data; None when the term says nothing"""
    for t in subterms(ln):
        if isinstance(t, tuple) and t and (t[0] == 'slice' or t[0] == 'm' and t[1] in (
                'decode', 'encode', 'strip', 'rstrip', 'lstrip', 'replace', 'split', 'rsplit', 'splitlines')):
            return False
    return None


def list_items(l, e):
    """the items of a list when event e happened, None when not all are known"""
    if l is None:
        return None
    it = e.state.heap(l, '@items') if l[0] == 'obj' else l
    if it is None or it[0] not in ('lst', 'tup') or any(x[0] == 'star' for x in it[1]):
        return None
    return list(it[1])


def varies(t, m):
    """does t depend on what the constructor was given (m: parameter -> attribute) or on a parameter"""
    for x in subterms(core(t)):
        if is_fld(x) and core(x[1]) == SELF and x[2] in m.values():
            return True
        if x[0] == 'sym' and x != SELF:
            return True
    return False


def plain_iterator(ctx, e, p, names=('ensure_http_headers',)):
    """an ArchiveIterator made without the options that change what a record holds"""
    pos = {'verify_http': 2, 'ensure_http_headers': 4}
    for n in names:
        v = e.arg(pos[n], n)
        t = False if v is None else truthy(e.state, v)
        msg = {'ensure_http_headers': 'no http headers are made up', 'verify_http': 'malformed http headers are no error'}[n]
        ctx.ob(True if t is False else False if t is True or varies(v, {}) else None, e, msg, path=p, key='plain')
