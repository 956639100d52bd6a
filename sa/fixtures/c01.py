from .util import B, G
L = 'warcio/limitreader.py'


READ = """        if length is not None and length >= 0:
            length = min(length, self.limit)
        else:
            length = self.limit

        if length == 0:
            return b''

        buff = self.stream.read(length)
        return self._update(buff)
"""
WRAP = """        try:
            content_length = int(content_length)
            if content_length >= 0:
                # optimize: if already a LimitStream, set limit to
                # the smaller of the two limits
                if isinstance(stream, LimitReader):
                    limit = min(stream.limit, content_length)
                    # keep the position: number of bytes already read
                    stream._orig_limit -= stream.limit - limit
                    stream.limit = limit
                else:
                    stream = LimitReader(stream, content_length)

        except (ValueError, TypeError):
            pass

        return stream
"""
FIXTURES = [
    B('no min', (L, "length = min(length, self.limit)", "pass")),
    B('max', (L, "length = min(length, self.limit)", "length = max(length, self.limit)")),
    B('readline forgets update', (L, "        buff = self.stream.readline(length)\n        return self._update(buff)",
                                  "        return self.stream.readline(length)")),
    B('double update', (L, "        self.limit -= length\n        return buff", "        self.limit -= length\n        if length > 100:\n            self.limit -= 1\n        return buff")),
    B('limit by requested', (L, READ, READ.replace("return self._update(buff)", "self.limit -= length\n        return buff"))),
    B('none passes through', (L, READ, READ.replace("        else:\n            length = self.limit\n", ""))),
    B('negative passes', (L, READ, READ.replace("length is not None and length >= 0", "length is not None"))),
    B('wrap overwrites limit', (L, "limit = min(stream.limit, content_length)", "limit = content_length")),
    B('position moved', (L, "                    stream._orig_limit -= stream.limit - limit\n", "")),
    B('position moved back', (L, "stream._orig_limit -= stream.limit - limit", "stream._orig_limit = limit")),
    B('wrap max', (L, "limit = min(stream.limit, content_length)", "limit = max(stream.limit, content_length)")),
    B('wrap only positive', (L, "if content_length >= 0:", "if content_length > 0:")),
    B('wrap off by one', (L, "stream = LimitReader(stream, content_length)", "stream = LimitReader(stream, content_length + 1)")),
    B('dvr update skips super', ('warcio/digestverifyingreader.py', "        super(DigestVerifyingReader, self)._update(buff)\n", "        if buff:\n            self.limit -= 1\n")),
    B('outside writer', ('warcio/recordloader.py', "            if check_digests:\n", "            stream.limit += 2\n            if check_digests:\n")),
    B('early empty', (L, READ, READ.replace("if length == 0:", "if length == 0 or self.limit < 2:"))),
    B('truncating result', (L, READ, READ.replace("buff = self.stream.read(length)\n        return self._update(buff)", "buff = self.stream.read(length)\n        self._update(buff)\n        return buff.rstrip(b'\\0')"))),
    B('tell reversed', (L, "return self._orig_limit - self.limit", "return self.limit - self._orig_limit")),
    G('ternary', (L, READ, """        if length is None or length < 0 or length > self.limit:
            length = self.limit
        if not length:
            return b''
        data = self.stream.read(length)
        self.limit -= len(data)
        return data
""")),
    G('helper', (L, READ, """        length = self._clamp(length)
        return self._update(self.stream.read(length)) if length else b''

    def _clamp(self, n):
        if n is None or n < 0:
            return self.limit
        return n if n < self.limit else self.limit
""")),
    G('wrap early return', (L, WRAP, """        try:
            size = int(content_length)
        except (ValueError, TypeError):
            return stream
        if size < 0:
            return stream
        if not isinstance(stream, LimitReader):
            return LimitReader(stream, size)
        if size < stream.limit:
            stream._orig_limit -= stream.limit - size
            stream.limit = size
        return stream
""")),
    {'name': 'rename attrs', 'expect': 'ok', 'all': True, 'edits': [(L, "self.stream", "self._src"), (L, '_orig_limit', '_initial'),
        ('warcio/digestverifyingreader.py', '_orig_limit', '_initial')]},
    B('zero length record unlimited', ('warcio/recordloader.py', "        if length is not None and length >= 0:\n            stream = L", "        if length is not None and length > 0:\n            stream = L")),
    B('limit off', ('warcio/recordloader.py', "LimitReader.wrap_stream(stream, length)", "LimitReader.wrap_stream(stream, length + sub_len)")),
    B('error records unlimited', ('warcio/recordloader.py', "        if length is not None and length >= 0:\n            stream = L", "        if length is not None and length >= 0 and not is_err:\n            stream = L")),
]
