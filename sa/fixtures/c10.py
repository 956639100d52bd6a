from .util import B, G
F = 'warcio/warcwriter.py'
R = 'warcio/recordbuilder.py'
FIXTURES = [
    B('no gzip member', (F, "            out = GzippingWrapper(out)\n", "            self._gz = getattr(self, '_gz', None) or GzippingWrapper(out)\n            out = self._gz\n")),
    B('always gzip', (F, "        if self.gzip:\n", "        if True:\n")),
    B('end bypasses', (F, "        out.write(b'\\r\\n\\r\\n')\n", "        self.out.write(b'\\r\\n\\r\\n')\n")),
    B('one crlf', (F, "b'\\r\\n\\r\\n'", "b'\\r\\n'")),
    B('no flush', (F, "        out.write(b'\\r\\n\\r\\n')\n\n        out.flush()\n", "        out.write(b'\\r\\n\\r\\n')\n")),
    B('flush first', (F, "        out.write(b'\\r\\n\\r\\n')\n\n        out.flush()\n", "        out.flush()\n        out.write(b'\\r\\n\\r\\n')\n")),
    B('http twice', (F, "        if not http_headers_only:\n            try:", "        if record.http_headers and record.payload_length == 0:\n            out.write(record.http_headers.headers_buff)\n        if not http_headers_only:\n            try:")),
    B('http not for empty payload', (F, "        if record.http_headers:\n            out.write", "        if record.http_headers and record.payload_length:\n            out.write")),
    B('http before', (F, "        out.write(record.rec_headers.to_bytes(encoding='utf-8'))\n\n        # write headers buffer, if any\n        if record.http_headers:\n            out.write(record.http_headers.headers_buff)\n",
      "        if record.http_headers:\n            out.write(record.http_headers.headers_buff)\n        out.write(record.rec_headers.to_bytes(encoding='utf-8'))\n")),
    B('latin1 headers', (F, "to_bytes(encoding='utf-8')", "to_bytes(encoding='latin-1')")),
    B('short stops', (R, "            if not buf:\n                return\n", "            if len(buf) < BUFF_SIZE:\n                return\n")),
    B('one piece', (F, "                    out.write(buf)\n            finally", "                    out.write(buf)\n                    break\n            finally")),
    B('payload twice', (F, "                    out.write(buf)\n            finally", "                    out.write(buf)\n                    if self.gzip:\n                        out.write(buf)\n            finally")),
    B('revisit payload', (F, "        if record.rec_type == 'revisit' and record.http_headers:\n            http_headers_only = True", "        if record.rec_type == 'revisit' and record.http_headers and self.gzip:\n            http_headers_only = True")),
    B('http dropped payload', (F, "        if record.rec_type == 'revisit' and record.http_headers:\n            http_headers_only = True", "        if record.rec_type in ('revisit', 'request') and record.http_headers:\n            http_headers_only = True")),
    B('compress lost', (F, "        buff = self.compressor.compress(buff)\n        self.out.write(buff)\n", "        buff = self.compressor.compress(buff)\n        if len(buff) > 10:\n            self.out.write(buff)\n")),
    B('sync flush', (F, "        buff = self.compressor.flush()\n        self.out.write(buff)\n        self.out.flush()", "        buff = self.compressor.flush(zlib.Z_SYNC_FLUSH)\n        self.out.write(buff)\n        self.out.flush()")),
    B('no inner flush', (F, "        self.out.write(buff)\n        self.out.flush()\n", "        self.out.write(buff)\n")),
    B('zlib format', (F, "zlib.MAX_WBITS + 16", "zlib.MAX_WBITS")),
    B('raw flush', (F, "        buff = self.compressor.flush()\n        self.out.write(buff)\n        self.out.flush()", "        buff = self.compressor.flush()\n        self.out.flush()\n        self.out.write(buff)")),
    G('helper', (F, "        # add two lines\n        out.write(b'\\r\\n\\r\\n')\n\n        out.flush()\n", "        self._end(out)\n\n    def _end(self, out):\n        out.write(b'\\r\\n')\n        out.write(b'\\r\\n')\n        out.flush()\n")),
    G('only flag', (F, "        if record.rec_type == 'revisit' and record.http_headers:\n            http_headers_only = True\n        else:\n            http_headers_only = False\n", "        http_headers_only = bool(record.http_headers) and record.rec_type == 'revisit'\n")),
    G('early out', (F, "        if self.gzip:\n            out = GzippingWrapper(out)\n", "        out = GzippingWrapper(out) if self.gzip else out\n")),
    G('while read', (F, "                for buf in self._iter_stream(record.raw_stream):\n                    out.write(buf)\n", "                buf = record.raw_stream.read(8192)\n                while buf:\n                    out.write(buf)\n                    buf = record.raw_stream.read(8192)\n")),
    G('copyfileobj', (F, "                for buf in self._iter_stream(record.raw_stream):\n                    out.write(buf)\n", "                shutil.copyfileobj(record.raw_stream, out)\n"), (F, "import zlib\n", "import zlib\nimport shutil\n")),
    G('joined header', (F, "        out.write(record.rec_headers.to_bytes(encoding='utf-8'))\n\n        # write headers buffer, if any\n        if record.http_headers:\n            out.write(record.http_headers.headers_buff)\n",
      "        head = record.rec_headers.to_bytes(encoding='utf-8')\n        if record.http_headers:\n            head = head + record.http_headers.headers_buff\n        out.write(head)\n")),
    G('default enc', (F, "to_bytes(encoding='utf-8')", "to_bytes()")),
    G('gz nested', (F, "        buff = self.compressor.compress(buff)\n        self.out.write(buff)\n", "        data = self.compressor.compress(buff)\n        if data:\n            self.out.write(data)\n")),
]
