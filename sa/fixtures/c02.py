from .util import B, G
A = 'warcio/archiveiterator.py'
DR = """        while True:
            b = self.record.raw_stream.read(BUFF_SIZE)
            if not b:
                break
"""
NX = """        record = self.loader.parse_record_stream(self.reader,
                                                 next_line,
                                                 self.known_format,
                                                 self.no_record_parse,
                                                 self.ensure_http_headers,
                                                 self.check_digests)

        self.member_info = None
"""
BL = """        while True:
            line = self.reader.readline()
            if len(line) == 0:
                return None, empty_size

            stripped = line.rstrip()

            if len(stripped) == 0 or first_line:
                empty_size += len(line)

                if len(stripped) != 0:
                    # if first line is not blank,
                    # likely content-length was invalid, display warning
                    err_offset = self.fh.tell() - self.reader.rem_length() - empty_size
                    sys.stderr.write(self.INC_RECORD.format(err_offset, line))
                    self.err_count += 1

                first_line = False
                continue

            return line, empty_size
"""
FIXTURES = [
    B('one read', (A, DR, "        b = self.record.raw_stream.read(BUFF_SIZE)\n")),
    B('short read ends', (A, "            if not b:\n                break\n", "            if len(b) < BUFF_SIZE:\n                break\n")),
    B('no drain', (A, DR, "")),
    B('stale mark', (A, "        self.member_info = None\n\n        # Track", "        # Track")),
    B('mark cleared late', (A, "                yield self.record\n", "                yield self.record\n                self.member_info = None\n"), (A, "        self.member_info = None\n\n        # Track", "        # Track")),
    B('skip drain when length 0', (A, "        if self.member_info:\n            return None\n", "        if self.member_info or self.record.length == 0:\n            return None\n")),
    B('next_line lost', (A, "        self.next_line, empty_size = self._consume_blanklines()", "        _, empty_size = self._consume_blanklines()")),
    B('next_line only when set', (A, "        self.next_line, empty_size = self._consume_blanklines()", "        nl, empty_size = self._consume_blanklines()\n        if nl:\n            self.next_line = nl")),
    B('stripped kept', (A, "            return line, empty_size\n", "            return stripped, empty_size\n")),
    B('none passed', (A, "self._next_record(self.next_line)", "self._next_record(None)")),
    B('stale line', (A, "            self.read_to_end()\n\n            if self.reader.decomp", "            nl = self.next_line\n            self.read_to_end()\n\n            if self.reader.decomp"),
      (A, "        while True:\n            empty_record = False\n            try:\n                self.record = self._next_record(self.next_line)", "        nl = None\n        while True:\n            empty_record = False\n            try:\n                self.record = self._next_record(nl)")),
    B('end met once ends for good', (A, "        while True:\n            empty_record = False\n", "        empty_record = False\n\n        while True:\n")),
    G('end forgotten with the record', (A, "        while True:\n            empty_record = False\n", "        empty_record = False\n\n        while True:\n"), (A, "                yield self.record\n", "                empty_record = False\n                yield self.record\n")),
    B('drain before yield only', (A, "            self.read_to_end()\n\n            if self.reader.decomp", "            if self.reader.decompressor:\n                self.read_to_end()\n\n            if self.reader.decomp")),
    B('ends after first plain', (A, "            elif empty_record:\n                break\n\n        self.close", "            elif empty_record or not self.next_line:\n                break\n\n        self.close")),
    B('skip many', (A, "                first_line = False\n                continue", "                continue")),
    B('record set late', (A, "                self.record = self._next_record(self.next_line)\n", "                rec = self._next_record(self.next_line)\n"), (A, "                yield self.record\n", "                yield rec\n                self.record = rec\n")),
    G('drain idiom', (A, DR, "        stream = self.record.raw_stream\n        while stream.read(BUFF_SIZE):\n            pass\n")),
    G('drain helper', (A, DR, "        self._exhaust(self.record)\n"), (A, "    def get_record_offset(self):", "    @staticmethod\n    def _exhaust(rec):\n        b = rec.raw_stream.read(BUFF_SIZE)\n        while len(b) > 0:\n            b = rec.raw_stream.read(BUFF_SIZE)\n\n    def get_record_offset(self):")),
    G('iter drain', (A, DR, "        for b in iter(lambda: self.record.raw_stream.read(BUFF_SIZE), b''):\n            pass\n")),
    G('blank lines rewritten', (A, BL, """        line = self.reader.readline()
        while line:
            content = line.strip()
            if content:
                if not first_line:
                    return line, empty_size
                empty_size += len(line)
                where = self.fh.tell() - self.reader.rem_length() - empty_size
                sys.stderr.write(self.INC_RECORD.format(where, line))
                self.err_count += 1
            else:
                empty_size += len(line)
            first_line = False
            line = self.reader.readline()
        return None, empty_size
""")),
    G('rename', (A, 'member_info', '_span'), (A, 'next_line', 'pending_line'), all=True),
    G('inline next', (A, "                self.record = self._next_record(self.next_line)\n                if raise", "                rec = self._next_record(self.next_line)\n                self.record = rec\n                if raise"), (A, "                yield self.record\n", "                yield rec\n")),
    B('white line kept', (A, "            stripped = line.rstrip()\n", "            stripped = line.rstrip(b'\\r\\n')\n")),
    G('strip set', (A, "            stripped = line.rstrip()\n", "            stripped = line.strip(b' \\t\\r\\n\\f\\v')\n")),
    B('only asks for the next member when bytes are left over', ('warcio/archiveiterator.py', '            if self.reader.decompressor:\n                # if another', '            if self.reader.decompressor and self.reader.decompressor.unused_data:\n                # if another')),
    B('drained again when a line was put back', ('warcio/archiveiterator.py', '        if self.member_info:\n            return None\n\n        curr', '        if self.member_info and not self.next_line:\n            return None\n\n        curr')),
    B('drained any number of times', ('warcio/archiveiterator.py', '        if self.member_info:\n            return None\n\n', '')),
    G('drained mark looked at with the record', ('warcio/archiveiterator.py', '        if not self.record:\n            return None\n', '        if not self.record or self.member_info:\n            return None\n'), ('warcio/archiveiterator.py', '        if self.member_info:\n            return None\n\n', '')),
    G('drained mark looked at by the iterator', ('warcio/archiveiterator.py', '            self.read_to_end()\n\n            if self.reader.dec', '            if not self.member_info:\n                self.read_to_end()\n\n            if self.reader.dec'), ('warcio/archiveiterator.py', '        if self.member_info:\n            return None\n\n', '')),
    G('the loop asks again whether a member is left', ('warcio/archiveiterator.py', "                # if empty record, then we're done\n                elif empty_record:\n                    break\n\n                # otherwise, probably a gzip\n                # containing multiple non-chunked records\n                # raise this as an error\n                else:\n                    raise_invalid_gzip = True\n\n            # non-gzip, so we're done\n            elif empty_record:\n                break\n", "            # nothing left, so we're done\n            if empty_record:\n                break\n\n            # otherwise, probably a gzip\n            # containing multiple non-chunked records\n            # raise this as an error\n            raise_invalid_gzip = raise_invalid_gzip or bool(self.reader.decompressor)\n")),
]
