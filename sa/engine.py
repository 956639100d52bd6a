"""Assembles the interpreter."""
from .interp import *
from .interp import Engine as _E
from .exprs import ExprMixin
from .calls import CallMixin
from .stmts import StmtMixin
from .terms import *
from .state import *
from .loader import Program, AnalysisBroken

# Public operations that rules talk about: kept as events unless an analysis
# asks for their bodies.  Anything else defined in the package (helpers,
# private methods, newly extracted functions) is inlined.
BOUNDARY = {
    'warcio.limitreader:LimitReader.read', 'warcio.limitreader:LimitReader.readline',
    'warcio.limitreader:LimitReader.close', 'warcio.limitreader:LimitReader.tell',
    'warcio.limitreader:LimitReader.wrap_stream',
    'warcio.bufferedreaders:BufferedReader.read', 'warcio.bufferedreaders:BufferedReader.readline',
    'warcio.bufferedreaders:BufferedReader.tell', 'warcio.bufferedreaders:BufferedReader.close',
    'warcio.bufferedreaders:BufferedReader.close_decompressor',
    'warcio.bufferedreaders:BufferedReader.read_next_member',
    'warcio.bufferedreaders:BufferedReader.rem_length', 'warcio.bufferedreaders:BufferedReader.__init__',
    'warcio.bufferedreaders:BufferedReader.empty', 'warcio.bufferedreaders:BufferedReader.set_decomp',
    'warcio.bufferedreaders:DecompressingBufferedReader.__init__',
    'warcio.bufferedreaders:ChunkedDataReader.__init__',
    'warcio.digestverifyingreader:DigestVerifyingReader.begin_payload',
    'warcio.digestverifyingreader:DigestVerifyingReader.__init__',
    'warcio.digestverifyingreader:DigestChecker.problem',
    'warcio.recordloader:ArcWarcRecordLoader.parse_record_stream',
    'warcio.recordloader:ArcWarcRecordLoader.load_http_headers',
    'warcio.recordloader:ArcWarcRecordLoader.__init__',
    'warcio.recordloader:ArcWarcRecord.content_stream',
    'warcio.recordloader:ARCHeadersParser.parse',
    'warcio.archiveiterator:ArchiveIterator.__init__', 'warcio.archiveiterator:ArchiveIterator.__iter__',
    'warcio.archiveiterator:ArchiveIterator.__next__',
    'warcio.archiveiterator:ArchiveIterator.get_record_offset',
    'warcio.archiveiterator:ArchiveIterator.get_record_length',
    'warcio.archiveiterator:ArchiveIterator.read_to_end', 'warcio.archiveiterator:ArchiveIterator.close',
    'warcio.recordbuilder:RecordBuilder.create_warc_record',
    'warcio.recordbuilder:RecordBuilder.ensure_digest',
    'warcio.warcwriter:BaseWARCWriter.write_request_response_pair',
    'warcio.warcwriter:WARCWriter.write_record', 'warcio.warcwriter:WARCWriter.__init__',
    'warcio.warcwriter:BufferWARCWriter.__init__', 'warcio.warcwriter:BaseWARCWriter.__init__',
    'warcio.warcwriter:GzippingWrapper.write', 'warcio.warcwriter:GzippingWrapper.flush',
    'warcio.warcwriter:GzippingWrapper.__init__',
    'warcio.statusandheaders:StatusAndHeadersParser.parse',
    'warcio.statusandheaders:StatusAndHeadersParser.make_warc_id',
    'warcio.statusandheaders:StatusAndHeadersParser.decode_header',
    'warcio.statusandheaders:StatusAndHeadersParser.split_prefix',
    'warcio.statusandheaders:StatusAndHeadersParser.__init__',
    'warcio.utils:Digester.update', 'warcio.utils:Digester.__init__', 'warcio.utils:Digester.__str__',
    'warcio.utils:to_native_str', 'warcio.utils:headers_to_str_headers', 'warcio.utils:fsspec_open',
    'warcio.timeutils:datetime_to_iso_date', 'warcio.timeutils:timestamp_to_iso_date',
    'warcio.timeutils:iso_date_to_datetime', 'warcio.timeutils:timestamp_to_datetime',
    'warcio.timeutils:datetime_to_timestamp', 'warcio.timeutils:http_date_to_datetime',
    'warcio.timeutils:datetime_to_http_date',
    'warcio.statusandheaders:StatusAndHeadersParserException.__init__',
    'warcio.exceptions:ArchiveLoadFailed.__init__', 'warcio.bufferedreaders:ChunkedDataException.__init__',
    'warcio.cli:main',
}
SH = 'warcio.statusandheaders:StatusAndHeaders.'
for _m in ('__init__', 'get_header', 'add_header', 'replace_header', 'remove_header', 'get_statuscode',
           'validate_statusline', 'add_range', 'compute_headers_buffer', 'to_str', 'to_bytes', 'to_ascii_bytes',
           'percent_encode_non_ascii_headers', '__contains__', '__bool__', '__eq__', '__ne__', '__str__', '__repr__'):
    BOUNDARY.add(SH + _m)


class Engine(ExprMixin, CallMixin, StmtMixin, _E):
    def __init__(self, prog, cfg=None, boundary=None):
        _E.__init__(self, prog, cfg, BOUNDARY if boundary is None else boundary)
        self.outer_of = {}
        self.frame_by_id = {}
        self.captured = set()
        self.handling = []
        self.pending_exc = []
        self.dead_cache = {}
        self.alts = {}


def analyse(prog, q, cfg=None, args=None, self_cls=None, st=None, boundary=None):
    e = Engine(prog, cfg or Config(), boundary)
    ps = e.run(q, args=args, self_cls=self_cls, st=st)
    return e, ps


def dump_items(items, ind=0, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    for it in items:
        if isinstance(it, Event):
            if it.kind in ('begin', 'end'):
                continue
            out.append('  ' * ind + it.show())
        elif isinstance(it, LoopRef):
            out.append('  ' * ind + 'LOOP %d heads, leaves from head %d' % (len(it.loop.heads), it.at))
            if id(it.loop) not in seen:
                seen.add(id(it.loop))
                for i in sorted(it.loop.trans):
                    for seg, j in it.loop.trans[i]:
                        out.append('  ' * ind + ' iter %d -> %d' % (i, j))
                        dump_items(seg, ind + 2, out, seen)
    return out


if __name__ == '__main__':
    import sys
    import time
    import os
    prog = Program(os.environ.get('SA_REPO', '/repo'))
    q = sys.argv[1]
    inl = set(sys.argv[2].split(',')) if len(sys.argv) > 2 and sys.argv[2] else set()
    t = time.time()
    e, ps = analyse(prog, q, Config(inline=inl), self_cls=sys.argv[3] if len(sys.argv) > 3 else None)
    for i, p in enumerate(ps):
        print('--- path %d %s %s' % (i, p.kind, show(p.value) if p.value else ''))
        for l in dump_items(p.items, 1):
            print(l)
        print('   facts:', {show(k): ''.join(sorted(v)) for k, v in p.state.null.items()},
              {show(k): v for k, v in p.state.lits.items()}, [show(x) + '<=0' for x in p.state.nums])
        print('   heap:', {show_key(k): show(v) for k, v in p.state.store.items() if k[0] == 'h' and k[2][0] != '@'})
    print(len(ps), 'paths', time.time() - t, e.notes)
