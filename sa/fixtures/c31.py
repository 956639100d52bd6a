from .util import B, G
A = 'warcio/archiveiterator.py'
BR = 'warcio/bufferedreaders.py'
C = 'warcio/checker.py'
X = 'warcio/extractor.py'
R = 'warcio/recompressor.py'
H = 'warcio/capture_http.py'
RB = 'warcio/recordbuilder.py'
WW = 'warcio/warcwriter.py'
S = 'warcio/statusandheaders.py'
RL = 'warcio/recordloader.py'
ITER = "        while True:\n            buf = stream.read(BUFF_SIZE)\n            if not buf:\n                return\n\n            yield buf\n"
RTE = "        while True:\n            b = self.record.raw_stream.read(BUFF_SIZE)\n            if not b:\n                break\n"
WR = "                for buf in self._iter_stream(record.raw_stream):\n                    out.write(buf)\n"
EX = "                buf = stream.read(self.READ_SIZE)\n                while buf:\n                    stdout_raw.write(buf)\n                    buf = stream.read(self.READ_SIZE)\n"
UP = "            if payload_digester:\n                payload_digester.update(buf)\n\n            if temp_file:\n"
TELL = "        try:\n            self.offset = self.fh.tell()\n"
FIXTURES = [
    B('rest at once', (A, RTE, "        self.record.raw_stream.read()\n")),
    B('rest by seek', (A, RTE, "        self.record.raw_stream.seek(0, 2)\n")),
    B('block of everything', (RB, ITER, "        yield stream.read()\n")),
    B('block of a gigabyte', (RB, "            buf = stream.read(BUFF_SIZE)", "            buf = stream.read(BUFF_SIZE * 65536)")),
    B('negative block', (RB, "            buf = stream.read(BUFF_SIZE)", "            buf = stream.read(-1)")),
    B('check reads all', (C, "        piece = stream.read(1024*1024)", "        piece = stream.read()")),
    B('extract reads all', (X, EX, "                stdout_raw.write(stream.read())\n")),
    B('extract joins', (X, EX, "                parts = []\n                buf = stream.read(self.READ_SIZE)\n                while buf:\n                    parts.append(buf)\n                    buf = stream.read(self.READ_SIZE)\n                stdout_raw.write(b''.join(parts))\n")),
    B('extract adds up', (X, EX, "                whole = b''\n                buf = stream.read(self.READ_SIZE)\n                while buf:\n                    whole += buf\n                    buf = stream.read(self.READ_SIZE)\n                stdout_raw.write(whole)\n")),
    B('writer joins', (WW, WR, "                parts = []\n                for buf in self._iter_stream(record.raw_stream):\n                    parts.append(buf)\n                out.write(b''.join(parts))\n")),
    B('writer lists', (WW, WR, "                out.write(b''.join(self._iter_stream(record.raw_stream)))\n")),
    B('writer lists 2', (WW, WR, "                for buf in list(self._iter_stream(record.raw_stream)):\n                    out.write(buf)\n")),
    B('writer reads all', (WW, WR, "                out.write(record.raw_stream.read())\n")),
    B('digest of the whole', (RB, UP, "            parts.append(buf)\n            if payload_digester:\n                payload_digester.update(buf)\n\n            if temp_file:\n"),
      (RB, "        for buf in self._iter_stream(record.raw_stream):\n            if block", "        parts = []\n        for buf in self._iter_stream(record.raw_stream):\n            if block")),
    B('never spooled', (RB, "SpooledTemporaryFile(max_size=512*1024)", "SpooledTemporaryFile()")),
    B('kept in memory', (RB, "SpooledTemporaryFile(max_size=512*1024)", "SpooledTemporaryFile(max_size=0)")),
    B('capture in memory', (H, "SpooledTemporaryFile(BUFF_SIZE)", "SpooledTemporaryFile()")),
    B('in memory file', (RB, "return tempfile.SpooledTemporaryFile(max_size=512*1024)", "return BytesIO()")),
    B('capture memory file', (H, "return SpooledTemporaryFile(BUFF_SIZE)", "return BytesIO()")),
    B('recompress in memory', (R, "with tempfile.TemporaryFile() as tout:", "with BytesIO() as tout:"), (R, "import tempfile\n", "import tempfile\nfrom io import BytesIO\n")),
    B('copied at once', (R, "            shutil.copyfileobj(decomp, tout)", "            tout.write(decomp.read())")),
    B('copied at once 2', (R, "            shutil.copyfileobj(decomp, tout)", "            shutil.copyfileobj(decomp, tout, -1)")),
    B('count by size', (A, "        self.offset += len(result)", "        self.offset += size")),
    B('not counted', (A, "        self.offset += len(result)\n", "")),
    B('count starts at one', (A, "        self.fh = fh\n        self.offset = 0", "        self.fh = fh\n        self.offset = 1")),
    B('all for any size', (A, "        result = self.fh.read(size)", "        result = self.fh.read()")),
    B('block size ignored', (A, "block_size=block_size)", "block_size=BUFF_SIZE)")),
    B('source read at once', (BR, "            data = self.stream.read(block_size)\n\n        self", "            data = self.stream.read()\n\n        self")),
    B('source grows', (BR, "            data = self.stream.read(block_size)\n            self._process_read(data)\n\n    def", "            data = self.stream.read()\n            self._process_read(data)\n\n    def")),
    B('reader seeks', (BR, "        block_size = block_size or self.block_size\n", "        block_size = block_size or self.block_size\n        if self.num_read == 0:\n            self.stream.seek(0)\n")),
    B('iterator rewinds', (A, TELL, "        try:\n            self.fh.seek(0)\n            self.offset = self.fh.tell()\n")),
    B('parser looks back', (S, "        statusline, total_read = _strip_count(full_statusline, 0)\n", "        statusline, total_read = _strip_count(full_statusline, 0)\n        if not statusline:\n            stream.seek(0)\n")),
    B('loader reads all', (RL, "        # if '*/*' limit", "        # ")) if False else
    B('reader reads lines', (BR, "            data = self.stream.read(block_size)\n\n        self", "            data = b''.join(self.stream.readlines())\n\n        self")),
    G('iter sentinel', (RB, ITER, "        for buf in iter(lambda: stream.read(BUFF_SIZE), b''):\n            yield buf\n")),
    G('while buf', (RB, ITER, "        buf = stream.read(BUFF_SIZE)\n        while buf:\n            yield buf\n            buf = stream.read(BUFF_SIZE)\n")),
    G('skip helper', (A, RTE, "        self._skip(self.record.raw_stream)\n"), (A, "    def get_record_offset(self):", "    @staticmethod\n    def _skip(stream):\n        while stream.read(BUFF_SIZE):\n            pass\n\n    def get_record_offset(self):")),
    G('other block size', (C, "stream.read(1024*1024)", "stream.read(1 << 16)")),
    G('extract helper', (X, EX, "                self._copy(stream, stdout_raw)\n"), (X, "    def extract(self", "    def _copy(self, src, out):\n        while True:\n            buf = src.read(self.READ_SIZE)\n            if not buf:\n                return\n            out.write(buf)\n\n    def extract(self")),
    G('count explicit', (A, "        self.offset += len(result)\n        return result", "        n = len(result)\n        self.offset = self.offset + n\n        return result")),
    G('copy explicit', (R, "            shutil.copyfileobj(decomp, tout)", "            while True:\n                b = decomp.read(65536)\n                if not b:\n                    break\n                tout.write(b)")),
    G('block size or', (BR, "        block_size = block_size or self.block_size\n", "        if not block_size:\n            block_size = self.block_size\n")),
    G('spool constant', (RB, "SpooledTemporaryFile(max_size=512*1024)", "SpooledTemporaryFile(BUFF_SIZE * 4)")),
    G('lines kept', (C, "                d_msg = None\n", "                seen = []\n                seen.append(record.rec_type)\n                d_msg = None\n")),
    B('members kept', ('warcio/archiveiterator.py', '        self.member_info = (curr_offset, length)\n', '        self.member_info = (curr_offset, length)\n        self.members.append(self.member_info)\n'), ('warcio/archiveiterator.py', '        self.err_count = 0\n', '        self.err_count = 0\n        self.members = []\n')),
    B('rest kept', ('warcio/archiveiterator.py', '            b = self.record.raw_stream.read(BUFF_SIZE)\n', '            b = self.record.raw_stream.read(BUFF_SIZE)\n            self.rest += b\n'), ('warcio/archiveiterator.py', '        self.err_count = 0\n', "        self.err_count = 0\n        self.rest = b''\n")),
    G('last lines', ('warcio/archiveiterator.py', '        self.member_info = (curr_offset, length)\n', '        self.member_info = (curr_offset, length)\n        self.done += 1\n        self.total += length\n'), ('warcio/archiveiterator.py', '        self.err_count = 0\n', '        self.err_count = 0\n        self.done = 0\n        self.total = 0\n')),
    B('rest read by the length', ('warcio/archiveiterator.py', '            b = self.record.raw_stream.read(BUFF_SIZE)', '            b = self.record.raw_stream.read(self.record.length)')),
]
