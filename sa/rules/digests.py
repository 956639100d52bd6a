"""Shared by C05/C06: attributes of the digest verifying reader and the abstract outcome of its comparisons."""
from ..core import *

DVR = 'warcio.digestverifyingreader:DigestVerifyingReader'
CHK = 'warcio.digestverifyingreader:DigestChecker'
LIM = 'warcio.limitreader:LimitReader'
SELF = sym('self')
KINDS = ('block', 'payload')
HDR = {'block': 'block_digest', 'payload': 'payload_digest'}


def fld0(attr):
    return ('fld', SELF, attr, 0)


class S(object):
    pass


def new_digesters(p):
    return [e for e in p.events() if e.kind == 'new' and e.name == 'warcio.utils:Digester' and not e.raised]


def slots(ctx):
    if hasattr(ctx, '_dslots'):
        return ctx._dslots
    s = S()
    f = ctx.prog.funcs[ctx.method(DVR, '__init__')]
    for n in ('stream', 'limit', 'digest_checker', 'block_digest', 'payload_digest', 'record_type', 'segment_number'):
        if n not in f.posargs and n not in getattr(f, 'kwonly', ()):
            raise AnalysisBroken('DigestVerifyingReader parameter %s is gone' % n)
    s.ctor = ctx.run(DVR, construct=True)
    s.made = {}       # kind -> attr holding the digester after construction
    s.expect = {}     # kind -> attr with the declared digest
    s.checker = None
    for p in s.ctor:
        if p.kind == 'x':
            continue
        heap = {k[2]: v for k, v in p.state.store.items() if k[0] == 'h' and k[1] == SELF}
        for a, v in heap.items():
            for kind in KINDS:
                if v == sym(HDR[kind]):
                    s.expect[kind] = a
            if v == sym('digest_checker'):
                s.checker = a
        for e in new_digesters(p):
            for kind in KINDS:
                if contains(e.arg(0, 'type_'), sym(HDR[kind])):
                    for a, v in heap.items():
                        if v == e.result:
                            s.made[kind] = a
    # digesters that are fed by read
    s.read = {}
    s.fed = {}
    fed = []
    for m in ('read', 'readline'):
        q = ctx.method(DVR, m)
        s.read[q] = ctx.run(q, self_cls=DVR)
        for p in s.read[q]:
            for e in p.events():
                if e.kind == 'call' and tail(e.name) == 'update' and self_fld(e.recv) and e.recv[2] not in fed:
                    fed.append(e.recv[2])
    q = ctx.method(DVR, 'begin_payload')
    s.begin_q, s.begin = q, ctx.run(q, self_cls=DVR)
    if s.made.get('block') in fed:
        s.fed['block'] = s.made['block']
        rest = [a for a in fed if a != s.fed['block']]
        if len(rest) == 1:
            s.fed['payload'] = rest[0]
    elif len(fed) == 1:
        # one digester only: is it the payload one
        for p in s.begin:
            if p.kind != 'x' and p.state.heap(SELF, fed[0]) is not None and s.made.get('payload'):
                s.fed['payload'] = fed[0]
    s.limit = None
    wr = set()
    for p in ctx.run(ctx.method(LIM, 'read'), self_cls=LIM):
        for e in p.events():
            if e.kind == 'store' and e.recv == SELF:
                wr.add(e.name)
    if len(wr) == 1:
        s.limit = wr.pop()
    s.orig = None
    for p in s.ctor:
        if p.kind != 'x':
            o = {k[2] for k, v in p.state.store.items() if k[0] == 'h' and k[1] == SELF and v == sym('limit')} - {s.limit}
            if len(o) == 1:
                s.orig = o.pop()
    ctx._dslots = s
    return s


def checker_evs(p, s):
    """verdict events of a path: ('problem', e), ('set', e, value), ('raw', e)"""
    out = []
    for e in p.events():
        if e.recv is None:
            continue
        on = is_fld(e.recv, s.checker) if s.checker else False
        on = on or e.recv == sym('digest_checker') or (is_fld(e.recv) and 'checker' in e.recv[2])
        if not on:
            continue
        if e.kind == 'call' and e.name == 'problem':
            out.append(('problem', e, None))
        elif e.kind == 'store':
            out.append(('set', e, e.args[0]))
    return out


def mentions(p, t, x, depth=4):
    """x is part of t, looking through the arguments of opaque calls"""
    if t is None:
        return False
    if contains(t, x):
        return True
    if depth == 0:
        return False
    calls = getattr(p, '_callmap', None)
    if calls is None:
        calls = {}
        for e in p.events():
            if e.kind in ('call', 'pure') and e.result is not None:
                calls.setdefault(e.result, []).extend(list(e.args or ()) + list((e.kw or {}).values()))
        p._callmap = calls
    for sub in subterms(t):
        for a in calls.get(sub, ()):
            if mentions(p, a, x, depth - 1):
                return True
    return False


class Outcome(object):
    """comparison of one digester on a path"""
    def __init__(self, p, D, E):
        st = p.state
        self.D, self.E = D, E
        dn, en = st.nullness(D), st.nullness(E)
        self.active = dn == T_ and en == T_
        self.off = 'T' not in dn or 'T' not in en
        self.own = {e.result for e in p.events() if e.kind == 'call' and e.name in ('__str__', 'digest', 'hexdigest')
                    and e.recv == D and not e.raised and e.result is not None}
        self.asked = any(e.kind in ('call', 'raise', 'pure') and e.recv == D and e.name == '__str__' for e in p.events())
        mine = []
        self.touched = False
        for k, v in list(st.lits.items()) + [(k, None) for k in st.null]:
            for t in subterms(k):
                if t in self.own or (t[0] == 'op' and t[1] == 'str' and t[2] and t[2][0] == D):
                    self.touched = True
                    break
        self.match = None
        self.partial = False
        for k, v in st.lits.items():
            if k[0] != 'eq':
                continue
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if self._mine(a) and mentions(p, b, E) and not self._mine(b):
                    cut = any(t[0] == 'slice' for x in (a, b) for t in subterms(x)) or \
                        any(t[0] == 'm' and t[1] in ('lower', 'upper', 'casefold') for x in (a, b) for t in subterms(x)) or \
                        (a[0] == 'idx' and a[2] == K(0))
                    if v and cut:
                        self.partial = True
                    elif v:
                        self.match = k
        self.compared = self.asked or self.touched or self.match is not None

    def _mine(self, t):
        return any(x in self.own or (x[0] == 'op' and x[1] == 'str' and x[2] and x[2][0] == self.D) for x in subterms(t))


def not_failed(p, P_fld, ver):
    """the path established that the verdict (read at version ver) is not False"""
    t = ('fld', P_fld[1], P_fld[2], ver)
    for k, v in p.state.lits.items():
        if k[0] == 'eq' and t in k[1:]:
            o = k[2] if k[1] == t else k[1]
            if (o == FALSE and v is False) or (o == TRUE and v is True) or (o == NONE and v is True):
                return True
    n = p.state.null.get(t)
    return n is not None and 'E' not in n
