"""Attributes of the archive iterator, found by analysing its public methods."""
from ..core import *

IT = 'warcio.archiveiterator:ArchiveIterator'
RTE = IT + '.read_to_end'
PARSE = 'warcio.recordloader:ArcWarcRecordLoader.parse_record_stream'
SELF = sym('self')


class Slots(object):
    pass


def is_parse(e):
    return e.kind == 'call' and e.name == tail(PARSE)


def drain_reads(p):
    """reads of the current record's stream on a path"""
    return [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'read' and is_fld(e.recv, 'raw_stream')
            and is_fld(e.recv[1])]


def iter_slots(ctx):
    if hasattr(ctx, '_iterslots'):
        return ctx._iterslots
    s = Slots()
    q = ctx.method(IT, 'read_to_end')
    s.rte = q
    s.paths = ctx.run(q, self_cls=IT)
    s.drained, s.early = [], []
    rec = set()
    for p in s.paths:
        if p.kind == 'x':
            continue
        d = drain_reads(p)
        for e in d:
            rec.add(e.recv[1][2])
        (s.drained if d else s.early).append(p)
    if not s.drained or len(rec) != 1:
        # the other paths tell which attribute holds the record
        for p in s.paths:
            for t in p.state.null:
                if is_fld(t) and t[1] == SELF and 'T' not in p.state.null[t]:
                    rec.add(t[2])
    s.record = sorted(rec)[0] if len(rec) == 1 else None
    # result: the attribute set to (offset, length)
    s.done = s.next = s.offset = None
    for p in s.drained:
        for e in p.events():
            if e.kind == 'store' and e.recv == SELF:
                v = e.args[0]
                if v[0] in ('tup', 'lst') and len(v[1]) == 2:
                    s.done = e.name
                    if self_fld(v[1][0]):
                        s.offset = v[1][0][2]
    if s.done is not None:
        moved = set()
        for p in s.drained:
            tells = {e.result for e in p.events() if e.kind == 'call' and tail(e.name) == 'tell'}
            for k, v in p.state.store.items():
                if k[0] == 'h' and k[1] == SELF and tells & set(lin_parts(v)[1]):
                    moved.add(k[2])
        if len(moved) == 1:
            s.offset = moved.pop()
    lines = set()
    for p in s.drained:
        for e in p.events():
            if e.kind == 'call' and tail(e.name) == 'readline':
                lines.add(e.result)
    for p in s.drained:
        for e in p.events():
            if e.kind == 'store' and e.recv == SELF and core(e.args[0]) in lines:
                s.next = e.name
    # generator methods of the iterator
    s.gens = [f.q for f in ctx.prog.funcs.values() if f.cls == IT and f.is_gen and f.outer is None]
    ctx._iterslots = s
    return s
