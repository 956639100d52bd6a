from .util import B, G
F = 'warcio/bufferedreaders.py'
RD = """            buff = self.buff.read(length)
            all_buffs.append(buff)
            if length:
                length -= len(buff)
"""
LINE = """        linebuff = piece = self.buff.readline(length)

        # we may be at a boundary
        while not linebuff.endswith(b'\\n'):
            if length:
                length -= len(piece)
                if length <= 0:
                    break

            self._fillbuff()

            if self.empty():
                break

            piece = self.buff.readline(length)
            linebuff += piece

        return linebuff
"""
FILLTAIL = """        while data and self.decompressor and not self.decompressor.unused_data and self.empty():
            data = self.stream.read(block_size)
            self._process_read(data)
"""
FIXTURES = [
    B('size not reduced', (F, "            if length:\n                length -= len(buff)\n", "")),
    B('reduced once', (F, "                length -= len(buff)\n", "                length -= len(all_buffs[0])\n")),
    B('stop on short piece', (F, "            all_buffs.append(buff)\n            if length:\n", "            all_buffs.append(buff)\n            if length and len(buff) < length:\n                break\n            if length:\n")),
    B('small piece dropped', (F, "            all_buffs.append(buff)\n", "            if len(buff) > 1:\n                all_buffs.append(buff)\n")),
    B('reversed', (F, "            all_buffs.append(buff)\n", "            all_buffs.insert(0, buff)\n")),
    B('read unbounded', (F, "            buff = self.buff.read(length)\n", "            buff = self.buff.read()\n")),
    B('no loop', (F, "        while length is None or length > 0:\n            self._fillbuff()\n            if self.empty():\n                break\n", "        if length is None or length > 0:\n            self._fillbuff()\n            if self.empty():\n                return b''\n")),
    B('line double count', (F, "                length -= len(piece)\n", "                length -= len(linebuff)\n")),
    B('line lost', (F, "            linebuff += piece\n", "            linebuff = piece\n")),
    B('line once', (F, "        while not linebuff.endswith(b'\\n'):\n            if length:", "        for _ in (1,):\n            if linebuff.endswith(b'\\n'):\n                break\n            if length:")),
    B('line stops before size', (F, "                if length <= 0:\n", "                if length <= 1:\n")),
    B('line whole', (F, "            piece = self.buff.readline(length)\n", "            piece = self.buff.readline()\n")),
    B('refill early', (F, "        if not self.empty():\n            return\n", "        if not self.empty() and self.buff_size > 1:\n            return\n")),
    B('member mixed', (F, "        if self.rem_length() > 0:\n            return\n", "")),
    B('starting data again', (F, "            data = self.starting_data\n            self.starting_data = None\n", "            data = self.starting_data\n")),
    B('no further read', (F, FILLTAIL, "")),
    B('one further read', (F, "        while data and self.decompressor and", "        if data and self.decompressor and")),
    B('undecoded lost', (F, "data = self.undecoded_data + raw_data", "data = b''")),
    B('raw after output', (F, "                if self.num_block_read == 0:\n                    data = self", "                if self.num_block_read >= 0:\n                    data = self")),
    B('dropped at start', (F, "                if self.num_block_read == 0:\n                    data = self", "                if self.num_block_read == 0 and len(raw_data) > 1:\n                    data = self")),
    B('size of raw', (F, "        data = self._decompress(data)\n        self.buff_size = len(data)\n", "        self.buff_size = len(data)\n        data = self._decompress(data)\n")),
    B('empty early', (F, "self.buff.tell() >= self.buff_size:", "self.buff.tell() >= self.buff_size - 1:")),
    B('empty late', (F, "self.buff.tell() >= self.buff_size:", "self.buff.tell() > self.buff_size:")),
    B('next member lost', (F, "        self.starting_data = self.decompressor.unused_data\n        self._init_decomp(self.decomp_type)\n", "        self._init_decomp(self.decomp_type)\n        self.starting_data = self.decompressor.unused_data\n")),
    B('next member same decompressor', (F, "        self._init_decomp(self.decomp_type)\n        return True", "        return True")),
    B('deflate raw', (F, "    return zlib.decompressobj()\n", "    return zlib.decompressobj(-zlib.MAX_WBITS)\n")),
    B('gzip auto', (F, "zlib.decompressobj(16 + zlib.MAX_WBITS)", "zlib.decompressobj(-16 - zlib.MAX_WBITS)")),
    B('stripped', (F, "        self.buff = BytesIO(data)\n", "        self.buff = BytesIO(data.lstrip(b'\\0'))\n")),
    G('remaining variable', (F, """        all_buffs = []
        while length is None or length > 0:
            self._fillbuff()
            if self.empty():
                break

            buff = self.buff.read(length)
            all_buffs.append(buff)
            if length:
                length -= len(buff)

        return b''.join(all_buffs)
""", """        out = b''
        left = length
        while left is None or left > 0:
            self._fillbuff()
            if self.empty():
                return out
            chunk = self.buff.read(left)
            out += chunk
            if left is not None:
                left = left - len(chunk)
        return out
""")),
    G('line pieces', (F, LINE, """        piece = self.buff.readline(length)
        pieces = [piece]
        while not piece.endswith(b'\\n'):
            if length is not None:
                length -= len(piece)
                if length < 1:
                    break
            self._fillbuff()
            if self.empty():
                break
            piece = self.buff.readline(length)
            pieces.append(piece)
        return b''.join(pieces)
""")),
    G('helper', (F, """        if self.starting_data:
            data = self.starting_data
            self.starting_data = None
        else:
            data = self.stream.read(block_size)

        self._process_read(data)
""", """        data = self._next_block(block_size)
        self._process_read(data)
"""), (F, """    def _process_read(self, data):
        # don't""", """    def _next_block(self, n):
        first, self.starting_data = self.starting_data, None
        if first:
            return first
        return self.stream.read(n)

    def _process_read(self, data):
        # don't""")),
    G('fill loop', (F, """        self._process_read(data)

        # if raw data is not empty and decompressor set, but
        # decompressed buff is empty, keep reading --
        # decompressor likely needs more data to decompress
""" + FILLTAIL, """        self._process_read(data)
        while True:
            if not data or not self.decompressor:
                break
            if self.decompressor.unused_data or not self.empty():
                break
            data = self.stream.read(block_size)
            self._process_read(data)
""")),
    G('empty rewritten', (F, "        if not self.buff or self.buff.tell() >= self.buff_size:\n            # if", "        left = self.buff is not None and self.buff.tell() < self.buff_size\n        if not left:\n            # if")),
    B('next member as gzip', (F, "self._init_decomp(self.decomp_type)\n        return True", "self._init_decomp('gzip')\n        return True")),
    B('undecoded replaced', ('warcio/bufferedreaders.py', '                if not data and self.num_block_read == 0:\n                    self.undecoded_data += raw_data', '                if not data and self.num_block_read == 0:\n                    self.undecoded_data = raw_data')),
    B('member count kept', ('warcio/bufferedreaders.py', '        self.num_block_read = 0\n', ''), ('warcio/bufferedreaders.py', '        self.stream = stream\n        self.block_size', '        self.num_block_read = 0\n        self.stream = stream\n        self.block_size')),
    B('bare decompressor', ('warcio/bufferedreaders.py', '        self.starting_data = self.decompressor.unused_data\n        self._init_decomp(self.decomp_type)\n', '        self.starting_data = self.decompressor.unused_data\n        self.decompressor = self.DECOMPRESSORS[self.decomp_type.lower()]()\n')),
    G('first bytes read another way', ('warcio/bufferedreaders.py', '        if self.starting_data:\n            data = self.starting_data\n            self.starting_data = None\n        else:\n            data = self.stream.read(block_size)\n\n        self._process_read(data)\n\n        # if raw data is not empty and decompressor set, but\n        # decompressed buff is empty, keep reading --\n        # decompressor likely needs more data to decompress\n        while data and self.decompressor and not self.decompressor.unused_data and self.empty():\n            data = self.stream.read(block_size)\n            self._process_read(data)\n', '        data = self._next_raw(block_size)\n        self._process_read(data)\n\n        # if raw data is not empty and decompressor set, but\n        # decompressed buff is empty, keep reading --\n        # decompressor likely needs more data to decompress\n        while data and self.decompressor and not self.decompressor.unused_data and self.empty():\n            data = self._next_raw(block_size)\n            self._process_read(data)\n\n    def _next_raw(self, block_size):\n        data, self.starting_data = self.starting_data, None\n        return data or self.stream.read(block_size)\n')),
]
