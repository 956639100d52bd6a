from .util import B, G
F = 'warcio/warcwriter.py'
R = 'warcio/recordbuilder.py'
U = 'warcio/utils.py'
LOOP = """        for buf in self._iter_stream(record.raw_stream):
            if block_digester and not headers_only:
                block_digester.update(buf)

            if payload_digester:
                payload_digester.update(buf)

            if temp_file:
                temp_file.write(buf)
"""
FIXTURES = [
    B('overwrites block', (R, "            if record.rec_headers.get_header('WARC-Block-Digest'):\n                block = False\n", "            pass\n")),
    B('never block', (R, "        block_digester = self._create_digester() if block else None\n", "        block_digester = self._create_digester() if block and record.http_headers else None\n")),
    B('revisit payload digest', (R, "('warcinfo', 'revisit')", "('warcinfo',)")),
    B('no metadata digest', (R, "('warcinfo', 'revisit')", "('warcinfo', 'revisit', 'metadata')")),
    B('swapped', (R, "'WARC-Payload-Digest', str(payload_digester)", "'WARC-Payload-Digest', str(block_digester or payload_digester)")),
    B('same digester', (R, "        payload_digester = self._create_digester() if payload else None\n", "        payload_digester = (block_digester or self._create_digester()) if payload else None\n")),
    B('headers into payload', (R, "            block_digester.update(record.http_headers.headers_buff)\n", "            block_digester.update(record.http_headers.headers_buff)\n            if payload_digester:\n                payload_digester.update(record.http_headers.headers_buff)\n")),
    B('no headers in block', (R, "        if block_digester and record.http_headers:\n", "        if block_digester and record.http_headers and record.rec_type != 'request':\n")),
    B('headers last', (R, "            block_digester.update(record.http_headers.headers_buff)\n", ""), (R, "        if temp_file:\n            record.payload", "        if block_digester and record.http_headers:\n            block_digester.update(record.http_headers.headers_buff)\n        if temp_file:\n            record.payload")),
    B('else if payload', (R, "            if payload_digester:\n                payload_digester.update(buf)\n", "            elif payload_digester:\n                payload_digester.update(buf)\n")),
    B('not buffered with digest', (R, "            if temp_file:\n                temp_file.write(buf)\n", "            elif temp_file:\n                temp_file.write(buf)\n"), ) if False else
    B('one chunk', (R, "            if temp_file:\n                temp_file.write(buf)\n", "            if temp_file:\n                temp_file.write(buf)\n            if not has_length:\n                break\n")),
    B('not put back', (R, "        else:\n            record.raw_stream.seek(pos)\n", "")),
    B('to the start', (R, "            record.raw_stream.seek(pos)\n\n        if payload", "            record.raw_stream.seek(0)\n\n        if payload")),
    B('pos late', (R, "        for buf in self._iter_stream(record.raw_stream):\n            if block_d", "        pos = record.raw_stream.tell() if not temp_file else 0\n        for buf in self._iter_stream(record.raw_stream):\n            if block_d")) if False else
    B('no rewind', (R, "            temp_file.seek(0)\n", "")),
    B('tell after rewind', (R, "            record.payload_length = temp_file.tell()\n            temp_file.seek(0)\n", "            temp_file.seek(0)\n            record.payload_length = temp_file.tell()\n")),
    B('length not measured', (R, "            record.payload_length = temp_file.tell()\n", "")),
    B('orig lost', (R, "            record._orig_stream = record.raw_stream\n            record.raw_stream = temp_file\n", "            record.raw_stream = temp_file\n            record._orig_stream = record.raw_stream\n")),
    B('unknown length not buffered', (R, "            assert(has_length)\n", "")),
    B('narrow except', (R, "            record.raw_stream.seek(pos)\n        except:\n", "            record.raw_stream.seek(pos)\n        except AssertionError:\n")),
    B('early return', (R, "not payload_digester and has_length:", "not payload_digester:")),
    B('early return 2', (R, "not block_digester and not payload_digester and", "not payload_digester and")),
    B('hexdigest', (U, "base64.b32encode(self.digester.digest())", "base64.b16encode(self.digester.digest())")),
    B('lower', (U, "base64.b32encode(self.digester.digest())", "base64.b32encode(self.digester.digest()).lower()")),
    B('wrong hash', (U, "hashlib.new(type_)", "hashlib.new('sha1')")),
    B('tag', (U, "self.type_ + ':' + to", "self.type_ + '=' + to")),
    B('only if new', (F, "            self.ensure_digest(record, block=True, payload=True)\n\n            record.length", "            self.ensure_digest(record, block=True, payload=False)\n\n            record.length")),
    B('digest late', (F, "        else:\n            self.ensure_digest(record, block=True, payload=True)\n", ""), (F, "        # write headers buffer, if any\n", "        if not has_len:\n            self.ensure_digest(record, block=True, payload=True)\n"), (F, "        if record.length is None:\n", "        has_len = record.length is None\n        if record.length is None:\n")),
    B('stale block digest', (F, "            record.rec_headers.remove_header('WARC-Block-Digest')\n            if", "            if")),
    B('stale payload digest', (F, "            if record.rec_type != 'revisit':\n                record.rec_headers.remove_header('WARC-Payload-Digest')\n", "")),
    B('revisit digest dropped', (F, "            if record.rec_type != 'revisit':\n                record.rec", "            if True:\n                record.rec")),
    B('restore on success only', (F, "            try:\n                for buf in self._iter_stream(record.raw_stream):\n                    out.write(buf)\n            finally:\n                if", "            if True:\n                for buf in self._iter_stream(record.raw_stream):\n                    out.write(buf)\n                if")),
    B('not closed', (F, "                    record.raw_stream.close()\n                    record.raw", "                    record.raw")),
    B('closes own', (F, "                if hasattr(record, '_orig_stream'):\n", "                if True:\n")),
    B('revisit block payload', (R, "            if block_digester and not headers_only:", "            if block_digester:")),
    G('other order', (R, LOOP, """        while True:
            piece = record.raw_stream.read(BUFF_SIZE)
            if not piece:
                break
            for sink in (temp_file,):
                if sink:
                    sink.write(piece)
            if payload_digester is not None:
                payload_digester.update(piece)
            if block_digester is not None and not headers_only:
                block_digester.update(piece)
""")),
    G('digest helper', (R, "            record.rec_headers.add_header('WARC-Payload-Digest', str(payload_digester))\n", "            self._declare(record, 'WARC-Payload-Digest', payload_digester)\n"), (R, "    @staticmethod\n    def _create_digester", "    @staticmethod\n    def _declare(record, name, digester):\n        record.rec_headers.add_header(name, str(digester))\n\n    @staticmethod\n    def _create_digester")),
    G('needs first', (R, """        if block:
            if record.rec_headers.get_header('WARC-Block-Digest'):
                block = False

        if payload:
            if (record.rec_headers.get_header('WARC-Payload-Digest') or
                (record.rec_type in self.NO_PAYLOAD_DIGEST_TYPES)):
                payload = False
""", """        headers = record.rec_headers
        block = block and not headers.get_header('WARC-Block-Digest')
        if payload and record.rec_type in self.NO_PAYLOAD_DIGEST_TYPES:
            payload = False
        payload = payload and not headers.get_header('WARC-Payload-Digest')
""")),
    G('split probing', (R, """        try:
            # force buffering if no length is set
            assert(has_length)
            pos = record.raw_stream.tell()
            record.raw_stream.seek(pos)
        except:
            pos = 0
            temp_file = self._create_temp_file()
""", """        pos = 0
        if has_length:
            try:
                pos = record.raw_stream.tell()
                record.raw_stream.seek(pos)
            except Exception:
                temp_file = self._create_temp_file()
        else:
            temp_file = self._create_temp_file()
""")),
    G('getattr restore', (F, "                if hasattr(record, '_orig_stream'):\n                    record.raw_stream.close()\n                    record.raw_stream = record._orig_stream\n", "                orig = getattr(record, '_orig_stream', None)\n                if orig is not None:\n                    record.raw_stream.close()\n                    record.raw_stream = orig\n")),
    G('format', (U, "self.type_ + ':' + to_native_str(base64.b32encode(self.digester.digest()))", "'{0}:{1}'.format(self.type_, base64.b32encode(self.digester.digest()).decode('ascii'))")),
    G('ensure once', (F, "            self.ensure_digest(record, block=True, payload=True)\n\n            record.length = record.payload_length\n\n        # ensure digests are set\n        else:\n            self.ensure_digest(record, block=True, payload=True)\n", "        unknown = record.length is None\n        self.ensure_digest(record)\n        if unknown:\n            record.length = record.payload_length\n")),
]
