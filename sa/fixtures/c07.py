from .util import B, G
F = 'warcio/bufferedreaders.py'
LOOP = """        while data_len < chunk_size:
            new_data = self.stream.read(chunk_size - data_len)

            # if we unexpectedly run out of data,
            # either raise an exception or just stop reading,
            # assuming file was cut off
            if not new_data:
                if self.raise_chunked_data_exceptions:
                    msg = 'Ran out of data before end of chunk'
                    raise ChunkedDataException(msg, data)
                else:
                    chunk_size = data_len
                    self.all_chunks_read = True

            data += new_data
            data_len = len(data)
"""
FIXTURES = [
    B('read whole size again', (F, "new_data = self.stream.read(chunk_size - data_len)", "new_data = self.stream.read(chunk_size)")),
    B('read once', (F, "        while data_len < chunk_size:\n            new_data = self.stream.read(chunk_size - data_len)\n", "        for _ in range(1):\n            new_data = self.stream.read(chunk_size - data_len)\n")),
    B('off by one', (F, "while data_len < chunk_size:", "while data_len < chunk_size - 1:")),
    B('data replaced', (F, "            data += new_data\n            data_len = len(data)\n", "            data = new_data\n            data_len += len(data)\n")),
    B('decimal', (F, "int(chunk_size, 16)", "int(chunk_size, 10)")),
    B('extension', (F, "chunk_size = length_header[:-2].split(b';')[0]", "chunk_size = length_header[:-2].split(b',')[0]")),
    B('lf enough', (F, "            assert(length_header[-2:] == b'\\r\\n')\n", "            assert(length_header[-1:] == b'\\n')\n")),
    B('line end delivered', (F, "            clrf = self.stream.read(2)\n            if clrf != b'\\r\\n':\n                raise ChunkedDataException(b\"Chunk terminator not found.\",\n                                           data)\n", "            clrf = self.stream.read(2)\n            if clrf != b'\\r\\n':\n                raise ChunkedDataException(b\"Chunk terminator not found.\",\n                                           data)\n            data += clrf\n")),
    B('terminator unchecked', (F, "            if clrf != b'\\r\\n':\n", "            if clrf != b'\\r\\n' and clrf != b'\\n\\n':\n")),
    B('terminator not read', (F, "        if not self.all_chunks_read:\n            clrf", "        if not self.all_chunks_read and chunk_size > 1:\n            clrf")),
    B('strict cut off silent', (F, "                if self.raise_chunked_data_exceptions:\n                    msg", "                if self.raise_chunked_data_exceptions and not data:\n                    msg")),
    B('last not flagged', (F, "            self.all_chunks_read = True\n            self._process_read(b'')", "            self._process_read(b'')")),
    B('last line end left', (F, "            final_data = self.stream.read(2)\n", "            final_data = b'\\r\\n'\n")),
    B('header lost', (F, "self._process_read(length_header + e.data)", "self._process_read(e.data)")),
    B('data lost', (F, "self._process_read(length_header + e.data)", "self._process_read(length_header)")),
    B('order', (F, "self._process_read(length_header + e.data)", "self._process_read(e.data + length_header)")),
    B('flag forgotten', (F, "                self.not_chunked = True\n", "")),
    B('strict swallowed', (F, "                if self.raise_chunked_data_exceptions:\n                    raise\n", "                if self.raise_chunked_data_exceptions and not e.data:\n                    raise\n")),
    B('value error escapes', (F, "        except (ValueError, AssertionError):", "        except AssertionError:")),
    B('goes on after last', (F, "               not self.all_chunks_read and\n", "")),
    B('next chunk early', (F, "        while (self.empty() and\n               not", "        while (not")),
    B('partial chunk dropped', (F, "        # hand to base class for further processing\n        self._process_read(data)\n", "        if not self.all_chunks_read:\n            self._process_read(data)\n")),
    G('pieces list', (F, LOOP, """        parts = []
        missing = chunk_size
        while missing > 0:
            piece = self.stream.read(missing)
            if not piece:
                if self.raise_chunked_data_exceptions:
                    raise ChunkedDataException('Ran out of data before end of chunk', b''.join(parts))
                self.all_chunks_read = True
                break
            parts.append(piece)
            missing -= len(piece)
        data = b''.join(parts)
""")),
    G('helper', (F, LOOP, "        data = self._read_chunk(chunk_size)\n"), (F, "    def _try_decode(self, length_header):\n", """    def _read_chunk(self, chunk_size):
        data_len = 0
        data = b''
""" + LOOP + """        return data

    def _try_decode(self, length_header):
""")),
    G('no asserts', (F, """            assert(length_header[-2:] == b'\\r\\n')
            chunk_size = length_header[:-2].split(b';')[0]
            chunk_size = int(chunk_size, 16)
            # sanity check chunk size
            assert(0 <= chunk_size <= 2**31)
        except (ValueError, AssertionError):
""", """            if not length_header.endswith(b'\\r\\n'):
                raise ValueError('line end')
            size, _, _ext = length_header[:-2].partition(b';')
            chunk_size = int(size, 16)
            if chunk_size < 0 or chunk_size > 2**31:
                raise ValueError('size')
        except ValueError:
""")),
    G('final check', (F, """            try:
                assert(final_data == b'\\r\\n')
            except AssertionError:
                raise ChunkedDataException(b"Incorrect \\r\\n after length header of 0",
                                           final_data)
""", """            if final_data != b'\\r\\n':
                raise ChunkedDataException(b"Incorrect \\r\\n after length header of 0",
                                           final_data)
""")),
    B('chunk limit', (F, "<= 2**31)", "<= 2**24)")),
    G('chunk limit up', (F, "<= 2**31)", "<= 2**40)")),
    B('digits edited', (F, "chunk_size = length_header[:-2].split(b';')[0]", "chunk_size = length_header[:-2].split(b';')[0].replace(b'_', b'')")),
    B('size taken from behind the extension', ('warcio/bufferedreaders.py', "chunk_size = length_header[:-2].split(b';')[0]", "chunk_size = length_header[:-2].split(b';')[-1]")),
    B('signs stripped from the size', ('warcio/bufferedreaders.py', '            chunk_size = int(chunk_size, 16)\n', "            chunk_size = int(chunk_size.strip(b'+-_ '), 16)\n")),
    B('cut-off chunk without its size line goes on as plain', ('warcio/bufferedreaders.py', '                    chunk_size = data_len\n                    self.all_chunks_read = True', '                    chunk_size = data_len\n                    self.not_chunked = True')),
]
