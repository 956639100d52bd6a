from .util import B, G
U = 'warcio/utils.py'
I = 'warcio/indexer.py'
C = 'warcio/checker.py'
X = 'warcio/extractor.py'
R = 'warcio/recompressor.py'
H = 'warcio/capture_http.py'
FS = "            with _fsspec_open(filename, mode=mod, **kwargs) as f:\n                yield f\n"
BI = "            with open(filename, mode=mod, **builtin_kwargs) as f:\n                yield f\n"
FIXTURES = [
    B('bytes dash', (U, "    if filename == '-' or filename == b'-':", "    if filename == '-':")),
    B('mode of fsspec', (U, "_fsspec_open(filename, mode=mod, **kwargs)", "_fsspec_open(filename, **kwargs)")),
    B('options of fsspec', (U, "_fsspec_open(filename, mode=mod, **kwargs)", "_fsspec_open(filename, mode=mod)")),
    B('not entered', (U, FS, "            yield _fsspec_open(filename, mode=mod, **kwargs)\n")),
    B('not closed after an error', (U, BI, "            f = open(filename, mode=mod, **builtin_kwargs)\n            yield f\n            f.close()\n")),
    B('closed before', (U, BI, "            with open(filename, mode=mod, **builtin_kwargs) as f:\n                pass\n            yield f\n")),
    B('handle closed', (U, "    elif filename:\n        yield filename\n", "    elif filename:\n        with filename:\n            yield filename\n")),
    B('default closed', (U, "    else:\n        yield default_fh\n", "    else:\n        try:\n            yield default_fh\n        finally:\n            if default_fh:\n                default_fh.close()\n")),
    B('handle not given', (U, "    elif filename:\n        yield filename\n", "    elif filename and default_fh:\n        yield default_fh\n    elif filename:\n        yield filename\n")),
    B('alias mode', (U, "    with fsspec_open(filename, mod, default_fh) as f:", "    with fsspec_open(filename, 'rb', default_fh) as f:")),
    B('alias default', (U, "    with fsspec_open(filename, mod, default_fh) as f:", "    with fsspec_open(filename, mod) as f:")),
    B('exclusive mode', (U, "        return sys_open(filename, mode, **kwargs)", "        return sys_open(filename, mode.replace('x', 'w'), **kwargs)")),
    B('index input text', (I, "with fsspec_open(filename, 'rb', stdin) as fh:", "with fsspec_open(filename, 'r', stdin) as fh:")),
    B('index appended', (I, "fsspec_open(self.output, 'wt', sys.stdout)", "fsspec_open(self.output, 'at', sys.stdout)")),
    B('index to stderr', (I, "fsspec_open(self.output, 'wt', sys.stdout)", "fsspec_open(self.output, 'wt', sys.stderr)")),
    B('no stdin', (I, "with fsspec_open(filename, 'rb', stdin) as fh:", "with fsspec_open(filename, 'rb') as fh:")),
    B('check leaks', (C, "        with fsspec_open(filename, 'rb') as stream:\n            it =", "        stream = open(filename, 'rb')\n        if stream:\n            it =")),
    B('extract leaks', (X, "        with fsspec_open(self.filename, 'rb') as fh:\n            fh.seek", "        fh = open(self.filename, 'rb')\n        if fh:\n            fh.seek")),
    B('output not truncated', (R, "with fsspec_open(output, 'wb') as out:", "with fsspec_open(output, 'ab') as out:")),
    B('temporary copy stays', (R, "        with tempfile.TemporaryFile() as tout:\n            decomp", "        tout = tempfile.TemporaryFile()\n        if tout is not None:\n            decomp")),
    B('stdout closed', (X, "            if payload_only:\n                stream = record.content_stream()\n", "            if payload_only:\n                sys.stdout.close()\n                stream = record.content_stream()\n")),
    B('capture overwrites', (H, "open(warc_writer, 'ab' if append else 'xb')", "open(warc_writer, 'ab' if append else 'wb')")),
    B('capture modes exchanged', (H, "open(warc_writer, 'ab' if append else 'xb')", "open(warc_writer, 'xb' if append else 'ab')")),
    G('try finally', (U, BI, "            f = open(filename, mode=mod, **builtin_kwargs)\n            try:\n                yield f\n            finally:\n                f.close()\n")),
    G('in', (U, "    if filename == '-' or filename == b'-':", "    if filename in ('-', b'-'):")),
    G('not first', (U, "    elif filename:\n        yield filename\n    else:\n        yield default_fh\n", "    elif not filename:\n        yield default_fh\n    else:\n        yield filename\n")),
    G('capture modes by if', (H, "        out = open(warc_writer, 'ab' if append else 'xb')\n", "        if append:\n            mode = 'ab'\n        else:\n            mode = 'xb'\n        out = open(warc_writer, mode)\n")),
    G('temporary copy closed', (R, "        with tempfile.TemporaryFile() as tout:\n            decomp = DecompressingBufferedReader(stream, read_all_members=True)\n\n            # decompress entire file to temp file\n            stream.seek(0)\n            shutil.copyfileobj(decomp, tout)\n\n            # attempt to compress and write temp\n            tout.seek(0)\n            return self.load_and_write(tout, output)\n",
                                "        tout = tempfile.TemporaryFile()\n        try:\n            stream.seek(0)\n            decomp = DecompressingBufferedReader(stream, read_all_members=True)\n            shutil.copyfileobj(decomp, tout)\n            tout.seek(0)\n            return self.load_and_write(tout, output)\n        finally:\n            tout.close()\n")),
    G('opened by a helper', (C, "        with fsspec_open(filename, 'rb') as stream:\n", "        with self._open(filename) as stream:\n"),
      (C, "    def process_one(self, filename):", "    def _open(self, filename):\n        return fsspec_open(filename, 'rb')\n\n    def process_one(self, filename):")),
    B('temp file left', (R, "with tempfile.TemporaryFile() as tout:", "with tempfile.NamedTemporaryFile(delete=False) as tout:")),
    G('named temp file', (R, "with tempfile.TemporaryFile() as tout:", "with tempfile.NamedTemporaryFile() as tout:")),
]
