from .util import B, G
W = 'warcio/warcwriter.py'
R = 'warcio/recordbuilder.py'
GC = "        pos = self.out.tell()\n        self.out.seek(0)\n        buff = self.out.read()\n        self.out.seek(pos)\n        return buff\n"
FIXTURES = [
    B('not from the start', (W, GC, GC.replace("        self.out.seek(0)\n", ""))),
    B('position lost', (W, GC, GC.replace("self.out.seek(pos)", "self.out.seek(0)"))),
    B('position after', (W, GC, "        self.out.seek(0)\n        pos = self.out.tell()\n        buff = self.out.read()\n        self.out.seek(pos)\n        return buff\n")),
    B('so much', (W, GC, GC.replace("self.out.read()", "self.out.read(1024 * 1024)"))),
    B('emptied', (W, GC, GC.replace("self.out.seek(pos)", "self.out.seek(0)\n        self.out.truncate()"))),
    B('nothing', (W, GC, GC.replace("return buff", "return b''"))),
    B('stream at the end', (W, "    def get_stream(self):\n        self.out.seek(0)\n", "    def get_stream(self):\n        self.out.seek(0, 2)\n")),
    B('stream anywhere', (W, "    def get_stream(self):\n        self.out.seek(0)\n", "    def get_stream(self):\n")),
    B('one file', (W, "        out = self._create_temp_file()\n", "        out = OUT\n"), (W, "class BufferWARCWriter(WARCWriter):", "OUT = RecordBuilder._create_temp_file()\n\n\nclass BufferWARCWriter(WARCWriter):")),
    B('options lost', (W, "__init__(out, *args, **kwargs)", "__init__(out, **kwargs)")),
    B('keywords lost', (W, "__init__(out, *args, **kwargs)", "__init__(out, *args)")),
    B('text', (R, "SpooledTemporaryFile(max_size=512*1024)", "SpooledTemporaryFile(max_size=512*1024, mode='w+')")),
    B('relative', (W, GC, "        self.out.seek(0)\n        return self.out.read()\n")),
    B('to the end', (W, GC, "        self.out.seek(0)\n        buff = self.out.read()\n        self.out.seek(0, 2)\n        return buff\n")),
    G('local', (W, GC, "        out = self.out\n        pos = out.tell()\n        out.seek(0)\n        try:\n            return out.read()\n        finally:\n            out.seek(pos)\n")),
    G('mode', (R, "SpooledTemporaryFile(max_size=512*1024)", "SpooledTemporaryFile(max_size=512*1024, mode='w+b')")),
    G('through stream', (W, GC, "        pos = self.out.tell()\n        buff = self.get_stream().read()\n        self.out.seek(pos)\n        return buff\n")),
    B('file swapped', ('warcio/warcwriter.py', '        self.out.seek(0)\n        return self.out', '        self.out.seek(0)\n        out, self.out = self.out, self._create_temp_file()\n        return out')),
]
