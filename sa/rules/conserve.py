"""Conservation of pieces: the value at a program point is the ordered concatenation of all pieces obtained so
far.  Proven by induction over the abstract loop heads."""
from ..core import *

ALL = ('ALL',)


def seq(t, st, tok, pieces):
    """atoms whose concatenation is t, or None"""
    if t in tok:
        return (tok[t],)
    if t in pieces:
        return (t,)
    tag = t[0]
    if tag == 'k':
        if t[2] in (b'', '', None):
            return ()
        return None
    if tag in ('cat', 'add', 'lst', 'tup'):
        rest = t[1]
        for k in tok:
            if k[0] == 'prefix' and rest[:len(k[1])] == k[1]:
                s = seq(('lst', rest[len(k[1]):]), st, tok, pieces)
                return None if s is None else (ALL,) + s
        out = ()
        for x in rest:
            s = seq(x[1] if x[0] == 'star' else x, st, tok, pieces)
            if s is None:
                return None
            out += s
        return out
    if tag == 'obj':
        it = st.heap(t, '@items')
        return seq(it, st, tok, pieces) if it is not None else None
    if tag == 'm' and t[1] == 'join' and is_k(t[2]) and not t[2][2]:
        return seq(t[3][0], st, tok, pieces)
    if tag == 'op' and t[1] in ('bytes', 'list', 'tuple') and len(t[2]) == 1:
        return seq(t[2][0], st, tok, pieces)
    if 'T' not in st.nullness(t):
        return ()
    return None


def drop_empty(s, st):
    return tuple(x for x in s if x == ALL or 'T' in st.nullness(x))


def empties_equal(a, b, st):
    return a is not None and drop_empty(a, st) == drop_empty(b, st)


def known(x, pr):
    return x == pr.len_of or x[0] == 'len' and x[1] in pr.pieces or any(x in dict(lin_parts(b)[1]) or x == b for b in pr.missing_bases())


class Proof(object):
    """walks a path; self.tok: terms that denote everything obtained so far; self.got: atoms since"""

    def __init__(self, is_piece, keys=None, len_of=None):
        self.is_piece = is_piece
        self.len_of = len_of     # term n: also look for values equal to n - len(everything)
        self.tok, self.got, self.rem, self.pieces = {}, (), {}, set()
        self.allp = False
        self.cnt = set()       # integer terms equal to the number of bytes obtained so far
        self.broken = set()    # terms that definitely do not denote everything
        self.last = set()      # terms that denote the most recent piece

    def copy(self):
        c = Proof(self.is_piece, len_of=self.len_of)
        c.tok, c.got, c.rem, c.pieces, c.allp = dict(self.tok), self.got, dict(self.rem), set(self.pieces), self.allp
        c.last = set(self.last)
        c.cnt = set(self.cnt)
        c.broken = set(self.broken)
        return c

    def want(self):
        return ((ALL,) if self.allp else ()) + self.got

    def holds(self, t, st):
        """True/False/None: t is everything obtained so far"""
        s = seq(t, st, self.tok, self.pieces)
        if s is None:
            x = t
            if x[0] == 'm' and x[1] == 'join' and x[3]:
                x = x[3][0]
            if x[0] == 'obj':
                x = st.heap(x, '@items') or x
            return False if x in self.broken or x[0] == 'lst' and len(x[1]) == 1 and x[1][0][0] == 'star' and x[1][0][1] in self.broken else None
        return empties_equal(s, self.want(), st)

    def remaining(self, t, st):
        """is t == n - len(everything)"""
        if self.len_of is None or t is None:
            return None
        bases = self.missing_bases()
        got = t
        for x in self.got:
            got = lin_add(got, mk_len(x))
        res = False
        for b in bases:
            c, parts = lin_parts(lin_add(got, b, -1))
            parts = {x: n for x, n in dict(parts).items() if n and not (x[0] == 'len' and 'T' not in st.nullness(x[1]))}
            if c == 0 and not parts:
                return True
            if c or any(not known(x, self) for x in parts):
                continue
        return None if any(not known(x, self) for x in dict(lin_parts(t)[1])) else False

    def missing_bases(self):
        if self.len_of is None:
            return []
        return list(self.rem) + [lin_add(self.len_of, x, -1) for x in self.count_bases()]

    def missing(self):
        """terms equal to n - len(everything)"""
        out = []
        for b in self.missing_bases():
            for x in self.got:
                b = lin_add(b, mk_len(x), -1)
            out.append(b)
        return out

    def count_bases(self):
        out = list(self.cnt) + ([ZERO] if not self.allp else [])
        if self.allp:
            out += [mk_len(x) for x in self.tok if isinstance(x, tuple) and x[0] not in ('lst', 'obj', 'prefix', 'k')]
        return out

    def counted(self, t, st):
        """is the integer t the number of bytes obtained so far"""
        if ttype(t) not in ('int', None) or t[0] in ('obj', 'tup', 'lst', 'cat', 'dct'):
            return False
        for b in self.count_bases():
            for x in self.got:
                b = lin_add(b, mk_len(x))
            if st.prove_eq(t, b):
                return True
            c, parts = lin_parts(lin_add(t, b, -1))
            if c == 0 and all(x[0] == 'len' and 'T' not in st.nullness(x[1]) for x, n in dict(parts).items() if n):
                return True
        return False

    def walk(self, items, visit=None):
        for it in items:
            if isinstance(it, Event):
                if visit:
                    visit(self, it)
                x = self.is_piece(it)
                if x is not None:
                    self.got += (x,)
                    self.pieces.add(x)
                    self.last = {x}
            elif isinstance(it, SegEnd):
                if visit:
                    visit(self, it)
            elif isinstance(it, LoopRef):
                self.loop(it, visit)
        return self

    def loop(self, it, visit):
        heads, tr = it.loop.heads, it.loop.trans
        ent = it.entry
        h0 = heads[ent]
        V = {k for k, v in h0.store.items() if isinstance(v, tuple) and self.holds(v, h0)}
        Z = {k for k, v in h0.store.items() if v in self.last}
        C = {k for k, v in h0.store.items() if isinstance(v, tuple) and (v == ZERO or v[0] in ('lin', 'len') or v in self.cnt) and self.counted(v, h0)}
        R = set()
        if self.len_of is not None:
            ks = [k for k, v in h0.store.items() if isinstance(v, tuple)]
            ints = [k for k in ks if h0.store[k] == self.len_of or h0.store[k][0] == 'lin' or h0.store[k] in self.rem]
            R = {(k, m) for k in ints for m in [None] + ks if m != k and (m is None or k[0] == 'l' and m[0] == 'l')
                 if self.remaining(remval((k, m), h0), h0)}
        back = {j for i in tr for s, j in tr[i]}
        reach, todo = {ent}, [ent]
        while todo:
            for s, j in tr.get(todo.pop(), ()):
                if j not in reach:
                    reach.add(j)
                    todo.append(j)
        anyp = any(self.is_piece(e) is not None for i in reach for s, j in tr.get(i, ()) for e in flat_events(s))
        if not anyp:
            # nothing obtained in the loop: facts carry over, loop-carried copies of a token stay tokens
            pass

        def start(i):
            c = self.copy()
            if i == ent and i not in back:
                return c
            c.pieces = set()
            c.allp, c.got, c.tok, c.rem = True, (), {}, {}
            c.last = {heads[i].store[k] for k in Z if k in heads[i].store}
            for k in V:
                v = heads[i].store.get(k)
                if v is not None and not is_k(v):
                    if v[0] in ('lst', 'cat', 'add') and v[1]:
                        c.tok[('prefix', v[1])] = ALL
                        if len(v[1]) == 1:
                            c.tok[v[1][0][1] if v[1][0][0] == 'star' else v[1][0]] = ALL
                    c.tok[v] = ALL
            c.cnt = {heads[i].store[k] for k in C if k in heads[i].store and not is_k(heads[i].store[k])}
            for r in R:
                v = remval(r, heads[i])
                if v is not None and not is_k(v):
                    c.rem[v] = True
            return c
        wrong = set()
        while True:
            bad, badr, badz, badc = set(), set(), set(), set()
            for i in reach:
                for s, j in tr.get(i, ()):
                    c = start(i).walk(s)
                    end = [x for x in s if isinstance(x, SegEnd)]
                    if not end:
                        continue
                    st = end[-1].state
                    for k in V:
                        v = st.store.get(k)
                        h = None if v is None else c.holds(v, st)
                        if not h:
                            bad.add(k)
                            if h is False:
                                wrong.add(k)
                    badc |= {k for k in C if k not in st.store or not c.counted(st.store[k], st)}
                    badz |= {k for k in Z if st.store.get(k) not in c.last}
                    for r in R:
                        v = remval(r, st)
                        if v is None or not c.remaining(v, st):
                            badr.add(r)
            if not bad and not badr and not badz and not badc:
                break
            V -= bad
            Z -= badz
            C -= badc
            R -= badr
        if visit:
            for i in sorted(reach):
                for s, j in tr.get(i, ()):
                    start(i).walk(s, visit)
        c = start(it.at)
        if it.at in back or it.at != ent:
            c.broken |= {heads[it.at].store[k] for k in wrong if k in heads[it.at].store and not is_k(heads[it.at].store[k])} - set(c.tok)
        self.tok, self.got, self.rem, self.pieces, self.allp, self.last = c.tok, c.got, c.rem, c.pieces, c.allp, c.last
        self.broken, self.cnt = c.broken, c.cnt


def flat_events(items):
    for it in items:
        if isinstance(it, Event):
            yield it
        elif isinstance(it, LoopRef):
            for i in it.loop.trans:
                for s, j in it.loop.trans[i]:
                    for e in flat_events(s):
                        yield e


def remval(r, st):
    """value of a local, or a local minus the length of another"""
    k, m = r
    v = st.store.get(k)
    if v is None or m is None:
        return v
    w = st.store.get(m)
    if w is None or w[0] in ('obj', 'lst', 'lin', 'tup', 'dct') or is_k(w) and not isinstance(w[2], (bytes, str)):
        return None
    return lin_add(v, mk_len(w), -1)


class AtMost(object):
    """follows a path and knows which values are None or at most the given bound"""

    def __init__(self, bound, also=()):
        self.bound, self.also, self.small = bound, tuple(also), set()

    def holds(self, t, st):
        if t is None:
            return True
        if not isinstance(t, tuple):
            return False
        if t == NONE or t in self.small or 'T' not in st.nullness(t) and 'E' not in st.nullness(t):
            return True
        return any(st.prove_le(lin_add(t, b, -1)) for b in [K(self.bound)] + list(self.also) + [
            x for x in self.small if x[0] in ('phi', 'lin', 'sym', 'fld')])

    def walk(self, items, visit=None):
        for it in items:
            if isinstance(it, LoopRef):
                self.loop(it, visit)
            elif visit and isinstance(it, Event):
                visit(self, it)
        return self

    def loop(self, it, visit):
        heads, tr = it.loop.heads, it.loop.trans
        keys = {k for k, v in heads[it.entry].store.items() if isinstance(v, tuple) and self.holds(v, heads[it.entry])}
        reach, todo = {it.entry}, [it.entry]
        while todo:
            for s, j in tr.get(todo.pop(), ()):
                if j not in reach:
                    reach.add(j)
                    todo.append(j)

        def start(i):
            c = AtMost(self.bound, self.also)
            c.small = set(self.small) | {heads[i].store[k] for k in keys if k in heads[i].store}
            return c
        while True:
            bad = set()
            for i in reach:
                for s, j in tr.get(i, ()):
                    end = [x for x in s if isinstance(x, SegEnd)]
                    if end:
                        c = start(i).walk(s)
                        bad |= {k for k in keys if k in end[-1].state.store and not c.holds(end[-1].state.store[k], end[-1].state)}
            if not bad:
                break
            keys -= bad
        if visit:
            for i in sorted(reach):
                for s, j in tr.get(i, ()):
                    start(i).walk(s, visit)
        self.small = start(it.at).small
