"""Rule framework: obligations, violations, evidence."""
import json
import os
import signal
import sys
import time
import traceback
from .engine import *
from .interp import Loop, LoopRef, Alloc, SegEnd, flat
from .loader import Program, AnalysisBroken
from .terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')


class Timeout(Undecided):
    pass


def _alarm(*a):
    raise Timeout('time limit of the analysis of one entry point')


class Ctx(object):
    def __init__(self, pid, tier='quick', prog=None, seed=1, limit=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prog = prog or Program(REPO)
        self.limit = limit or (120 if tier == 'quick' else 600)
        self.rules = {}          # name -> text
        self.obs = []            # (rule, ok, where, msg)
        self.viol = []           # dicts
        self.und = []            # (rule, why)
        self.funcs = {}          # entry -> paths
        self.inlined = set()
        self.nevents = 0
        self.cache = {}
        self.cur = None
        self.fixtures = 0
        self._seen = set()
        self.assumptions = []

    # -- rules
    def rule(self, name, text):
        self.rules[name] = text
        self.cur = name
        return name

    # -- obligations
    def ob(self, ok, where, msg, key=None, path=None, rule=None):
        """ok True: discharged; False: violation; None: undecided"""
        rule = rule or self.cur
        w = where.where() if isinstance(where, Event) else str(where)
        if ok is None:
            self.und.append((rule, w + ': ' + msg))
            return None
        if not ok:
            k = rule + '|' + (key or (where.func.q if isinstance(where, Event) and where.func else w))
            if k in self._seen:
                return False
            self._seen.add(k)
            v = {'rule': rule, 'where': w, 'message': msg, 'key': k}
            if path is not None:
                v['exit'] = path.kind + ' ' + (show(path.value) if path.value else '')
                v['path'] = dump_items(path.items)[:80]
            self.viol.append(v)
            self.obs.append((rule, False, w, msg))
            return False
        kk = (rule, w, msg)
        self.obs.append((rule, True, w, msg))
        return True

    def guarded(self, fn, *a, **k):
        """run one rule; engine limits make it undecided, not a verdict"""
        try:
            return fn(self, *a, **k)
        except AnalysisBroken:
            raise
        except Undecided as e:
            self.und.append((self.cur or fn.__name__, '%s: %s' % (type(e).__name__, e)))
        except RecursionError:
            self.und.append((self.cur or fn.__name__, 'recursion limit'))
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.und.append((self.cur or fn.__name__, 'analysis could not model the code: %s %s (%s:%d)' % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)))

    # -- analyses
    def run(self, q, args=None, self_cls=None, st=None, construct=False, eng=False, limit=None, self_term=None, **cfg):
        """abstract paths of a function (cached)"""
        ck = (q, repr(sorted((args or {}).items())), self_cls, construct, id(st) if st else None, repr(self_term),
              repr(sorted((k, sorted(map(repr, v.items() if isinstance(v, dict) else v)) if isinstance(v, (set, frozenset, dict)) else repr(v)) for k, v in cfg.items())))
        if ck not in self.cache:
            c = Config(**cfg)
            e = Engine(self.prog, c)
            old = signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, limit or self.limit)
            try:
                if construct:
                    ps = e.construct_entry(q, args, st=st)
                else:
                    ps = e.run(q, args=args, self_cls=self_cls, st=st, self_term=self_term)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
            self.cache[ck] = (e, ps, st)
            self.inlined |= e.inlined
            self.nevents += e.n_events
            self.funcs[q] = self.funcs.get(q, 0) + len(ps)
            for n in e.notes:
                self.und.append((self.cur, 'note %s: %s' % (q, n)))
        e, ps, _ = self.cache[ck]
        return (e, ps) if eng else ps

    def need(self, q):
        if q not in self.prog.funcs and q not in self.prog.classes:
            raise AnalysisBroken('public construct %s is gone' % q)
        return q

    def method(self, cls, name):
        """q of the implementation of a public method"""
        l = self.prog.lookup(cls, name)
        if not l or l[0] != 'fn':
            raise AnalysisBroken('public method %s.%s is gone' % (cls, name))
        return l[1].q

    def slots(self, cls, args=None, **cfg):
        """{parameter name: attribute} for values the constructor stores unchanged, plus the
        constructor paths"""
        ps = self.run(cls, args, construct=True, **cfg)
        m = {}
        for p in ps:
            if p.kind == 'x':
                continue
            for k, v in p.state.store.items():
                if k[0] == 'h' and k[1] == sym('self') and v[0] == 'sym' and k[2][0] != '@':
                    m.setdefault(v[1], k[2])
        return m, ps


def self_fld(t, attr=None, selfname='self'):
    """is t the entry value of an attribute of self"""
    return t is not None and t[0] == 'fld' and t[1] == sym(selfname) and (attr is None or t[2] == attr)


def is_fld(t, attr=None):
    return t is not None and t[0] == 'fld' and (attr is None or t[2] == attr)


def core(t):
    """the value itself, whichever loop iteration it comes from"""
    while t is not None and t[0] in ('old', 'older'):
        t = t[2]
    return t


def falsy_now(st, results):
    """some value of the given call results is known to be falsy in this state"""
    if any('T' not in st.nullness(r) for r in results):
        return True
    for k, v in st.null.items():
        if 'T' not in v and k[0] in ('old', 'older') and core(k) in results:
            return True
    return False


# -- monitors over items with loops -----------------------------------------
def run_monitor(items, init, step, cut=None):
    """set-of-states automaton over a path.  step(state, event) -> iterable of
    successor states; init is an iterable of hashable states."""
    cur = set(init)
    for it in items:
        if isinstance(it, (Event, SegEnd)):
            nxt = set()
            for s in cur:
                nxt.update(step(s, it))
            cur = nxt
        elif isinstance(it, LoopRef):
            reach = {it.entry: set(cur)}
            work = [(it.entry, frozenset(cur))]
            while work:
                i, ss = work.pop()
                for seg, j in it.loop.trans.get(i, ()):
                    out = run_monitor(seg, ss, step)
                    new = out - reach.setdefault(j, set())
                    if new:
                        reach[j] |= new
                        work.append((j, frozenset(new)))
            cur = reach.get(it.at, set())
    return cur


def segments(items, seen=None):
    """every straight-line item list: the path itself and each loop iteration"""
    seen = set() if seen is None else seen
    yield items
    for it in items:
        if isinstance(it, LoopRef) and id(it.loop) not in seen:
            seen.add(id(it.loop))
            for i in sorted(it.loop.trans):
                for seg, j in it.loop.trans[i]:
                    for x in segments(seg, seen):
                        yield x


def same(st, a, b):
    """a and b are the same value on this path (one may be written as the constant the other is known to be)"""
    if a == b:
        return True
    if a is None or b is None:
        return False
    na, nb = st.nullness(a), st.nullness(b)
    if 'T' not in na | nb and 'E' not in na | nb:
        return True
    for x, y in ((a, b), (b, a)):
        if is_k(x) and any(k[0] == 'eq' and v and len(k) == 3 and {core(k[1]), core(k[2])} == {x, core(y)} for k, v in st.lits.items()):
            return True
    return False


def evs(items, kind=None, name=None):
    for it in items:
        if isinstance(it, Event) and (kind is None or it.kind == kind) and (name is None or it.name == name):
            yield it


def tail(name):
    return name.replace(':', '.').split('.')[-1] if name else name
