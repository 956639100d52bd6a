from .util import *
R = 'warcio/recordloader.py'
F = 'warcio/bufferedreaders.py'
CS = """        if self.http_headers.get_header('transfer-encoding', '').lower() == 'chunked':
            return ChunkedDataReader(self.raw_stream, decomp_type=encoding)
        elif encoding:
            return BufferedReader(self.raw_stream, decomp_type=encoding)
        else:
            return self.raw_stream
"""
FIXTURES = [
    B('enc-case', (R, "            encoding = encoding.lower()\n", "")),
    B('te-case', (R, "'transfer-encoding', '').lower()", "'transfer-encoding', '')")),
    B('no-decomp-chunked', (R, "ChunkedDataReader(self.raw_stream, decomp_type=encoding)", "ChunkedDataReader(self.raw_stream)")),
    B('unsupported-passed', (R, "                encoding = None\n", "                encoding = encoding.strip()\n")),
    B('ignore-when-chunked', (R, "== 'chunked':", "== 'chunked' and not encoding:")),
    B('gzip-only', (R, "not in BufferedReader.get_supported_decompressors()", "not in ('gzip', 'br')")),
    B('wrong-header', (R, "get_header('content-encoding')", "get_header('transfer-encoding')")),
    B('endswith', (R, "'transfer-encoding', '').lower() == 'chunked'", "'transfer-encoding', '').lower() == 'gzip, chunked'")),
    B('double', (R, "return ChunkedDataReader(self.raw_stream, decomp_type=encoding)", "return ChunkedDataReader(BufferedReader(self.raw_stream, decomp_type=encoding))")),
    B('no-alt', (F, "self._init_decomp('deflate_alt')\n                        data = self._decompress(data)", "self.decompressor = None")),
    B('alt-loses', (F, "                        data = self._decompress(data)\n                    else:", "                        data = self._decompress(b'')\n                    else:")),
    G('vars', (R, CS, """        chunked = self.http_headers.get_header('transfer-encoding', '').lower() == 'chunked'
        if chunked:
            return ChunkedDataReader(self.raw_stream, decomp_type=encoding)
        if not encoding:
            return self.raw_stream
        return BufferedReader(self.raw_stream, decomp_type=encoding)
""")),
    G('helper', (R, "        encoding = self.http_headers.get_header('content-encoding')\n\n        if encoding:\n            encoding = encoding.lower()\n\n            if encoding not in BufferedReader.get_supported_decompressors():\n                encoding = None\n", "        encoding = self._encoding()\n"),
      (R, "    def content_stream(self):", "    def _encoding(self):\n        e = (self.http_headers.get_header('content-encoding') or '').lower()\n        return e if e in BufferedReader.DECOMPRESSORS else None\n\n    def content_stream(self):")),
    G('cls', (R, CS, """        te = self.http_headers.get_header('transfer-encoding', '')
        reader = ChunkedDataReader if te.lower() == 'chunked' else BufferedReader
        if reader is BufferedReader and not encoding:
            return self.raw_stream
        return reader(self.raw_stream, decomp_type=encoding)
""")),
    B('raw replaced', ('warcio/recordloader.py', '            return BufferedReader(self.raw_stream, decomp_type=encoding)', '            self.raw_stream = BufferedReader(self.raw_stream, decomp_type=encoding)\n            return self.raw_stream')),
]
