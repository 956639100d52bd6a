from .util import B, G
F = 'warcio/extractor.py'
CLI = 'warcio/cli.py'
PL = """                stream = record.content_stream()
                buf = stream.read(self.READ_SIZE)
                while buf:
                    stdout_raw.write(buf)
                    buf = stream.read(self.READ_SIZE)
"""
RL = """                    buf = record.raw_stream.read(self.READ_SIZE)
                    while buf:
                        stdout_raw.write(buf)
                        buf = record.raw_stream.read(self.READ_SIZE)
"""
FIXTURES = [
    B('no seek', (F, "            fh.seek(int(self.offset))\n", "")),
    B('relative seek', (F, "fh.seek(int(self.offset))", "fh.seek(int(self.offset), 1)")),
    B('offset plus', (F, "fh.seek(int(self.offset))", "fh.seek(int(self.offset) + 1)")),
    B('seek after', (F, "            fh.seek(int(self.offset))\n", ""), (F, "            record = next(it)\n", "            fh.seek(int(self.offset))\n            record = next(it)\n")),
    B('second record', (F, "            record = next(it)\n", "            next(it)\n            record = next(it)\n")),
    B('arc2warc', (F, "ArchiveIterator(fh)", "ArchiveIterator(fh, arc2warc=True)")),
    B('no parse', (F, "ArchiveIterator(fh)", "ArchiveIterator(fh, no_record_parse=True)")),
    B('payload raw', (F, "stream = record.content_stream()", "stream = record.raw_stream")),
    B('raw decoded', (F, RL, RL.replace("record.raw_stream", "record.content_stream()"))),
    B('payload once', (F, PL, "                stdout_raw.write(record.content_stream().read(self.READ_SIZE))\n")),
    B('raw block skipped', (F, RL, RL.replace("while buf:", "while len(buf) == self.READ_SIZE:"))),
    B('raw first lost', (F, RL, RL.replace("                    buf = record", "                    record.raw_stream.read(1)\n                    buf = record", 1))),
    B('raw twice', (F, RL, RL.replace("stdout_raw.write(buf)", "stdout_raw.write(buf)\n                        stdout_raw.write(buf)"))),
    B('no http', (F, "                if record.http_headers:\n                    stdout_raw.write(record.http_headers.to_bytes())\n", "")),
    B('http first', (F, "                stdout_raw.write(record.rec_headers.to_bytes())\n                if record.http_headers:\n                    stdout_raw.write(record.http_headers.to_bytes())\n", "                if record.http_headers:\n                    stdout_raw.write(record.http_headers.to_bytes())\n                stdout_raw.write(record.rec_headers.to_bytes())\n")),
    B('http only headers', (F, "if record.http_headers:", "if record.http_headers and headers_only:")),
    B('headers with body', (F, "                if not headers_only:\n                    buf", "                if True:\n                    buf")),
    B('payload with headers', (F, PL, "                stdout_raw.write(record.rec_headers.to_bytes())\n" + PL)),
    B('print', (F, PL, PL + "                print()\n")),
    B('strip', (F, "                    stdout_raw.write(buf)\n                    buf = stream", "                    stdout_raw.write(buf[:-1])\n                    buf = stream")),
    B('flags swapped', (CLI, "extract(cmd.payload, cmd.headers)", "extract(cmd.headers, cmd.payload)")),
    B('offset lost', (CLI, "Extractor(cmd.filename, cmd.offset)", "Extractor(cmd.filename, 0)")),
    G('for loop', (F, RL, "                    while True:\n                        buf = record.raw_stream.read(self.READ_SIZE)\n                        if not buf:\n                            break\n                        stdout_raw.write(buf)\n")),
    G('helper', (F, PL, "                self._copy(record.content_stream(), stdout_raw)\n"), (F, RL, "                    self._copy(record.raw_stream, stdout_raw)\n"), (F, "    def extract(", "    def _copy(self, stream, out):\n        buf = stream.read(self.READ_SIZE)\n        while buf:\n            out.write(buf)\n            buf = stream.read(self.READ_SIZE)\n\n    def extract(")),
    G('copyfileobj', (F, RL, "                    import shutil\n                    shutil.copyfileobj(record.raw_stream, stdout_raw)\n")),
    G('offset var', (F, "            fh.seek(int(self.offset))\n", "            offset = int(self.offset)\n            fh.seek(offset)\n")),
    G('read all', (F, PL, "                stdout_raw.write(record.content_stream().read())\n")),
    G('int in ctor', (F, "        self.offset = offset", "        self.offset = offset\n        self.count = 0")),
    G('headers in a loop', ('warcio/extractor.py', '            if payload_only:\n                stream = record.content_stream()\n                buf = stream.read(self.READ_SIZE)\n                while buf:\n                    stdout_raw.write(buf)\n                    buf = stream.read(self.READ_SIZE)\n            else:\n                stdout_raw.write(record.rec_headers.to_bytes())\n                if record.http_headers:\n                    stdout_raw.write(record.http_headers.to_bytes())\n                if not headers_only:\n                    buf = record.raw_stream.read(self.READ_SIZE)\n                    while buf:\n                        stdout_raw.write(buf)\n                        buf = record.raw_stream.read(self.READ_SIZE)\n', '            stream = None\n            if payload_only:\n                stream = record.content_stream()\n            else:\n                for headers in (record.rec_headers, record.http_headers):\n                    if headers:\n                        stdout_raw.write(headers.to_bytes())\n                if not headers_only:\n                    stream = record.raw_stream\n\n            if stream is not None:\n                for buf in self._chunks(stream):\n                    stdout_raw.write(buf)\n\n    def _chunks(self, stream):\n        while True:\n            buf = stream.read(self.READ_SIZE)\n            if not buf:\n                break\n            yield buf\n')),
    B('blocks of no bytes', ('warcio/extractor.py', '    READ_SIZE = BUFF_SIZE * 4', '    READ_SIZE = 0')),
    B('headers written as ascii', ('warcio/extractor.py', '                stdout_raw.write(record.rec_headers.to_bytes())', "                stdout_raw.write(record.rec_headers.to_bytes(encoding='ascii'))")),
    B('http headers made up', ('warcio/extractor.py', '            it = iter(ArchiveIterator(fh))', '            it = iter(ArchiveIterator(fh, ensure_http_headers=True))')),
    B('http headers verified', ('warcio/extractor.py', '            it = iter(ArchiveIterator(fh))', '            it = iter(ArchiveIterator(fh, verify_http=True))')),
]
