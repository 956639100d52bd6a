from .util import B, G
F = 'warcio/recompressor.py'
CP = "                writer.write_record(record)\n                count += 1\n"
EX = "            sys.exit(1)\n"
SK = "            # decompress entire file to temp file\n            stream.seek(0)\n"
FIXTURES = [
    B('append mode', (F, "fsspec_open(output, 'wb')", "fsspec_open(output, 'ab')")),
    B('not gzipped', (F, "gzip=True", "gzip=False")),
    B('no arc', (F, "arc2warc=True", "arc2warc=False")),
    B('verify http', (F, "verify_http=False", "verify_http=True")),
    B('no parse', (F, "no_record_parse=False", "no_record_parse=True")),
    B('skip unwritable', (F, CP, "                try:\n                    writer.write_record(record)\n                except Exception:\n                    continue\n                count += 1\n")),
    B('skip type', (F, CP, "                if record.rec_type != 'unknown':\n                    writer.write_record(record)\n                count += 1\n")),
    B('written twice', (F, CP, CP + "                if record.rec_type == 'metadata':\n                    writer.write_record(record)\n")),
    B('stops early', (F, CP, CP + "                if not record.length:\n                    break\n")),
    B('header added', (F, CP, "                record.rec_headers.replace_header('WARC-Recompressed', '1')\n" + CP)),
    B('content read', (F, CP, "                record.content_stream().read()\n" + CP)),
    B('only archive error', (F, "except Exception as e:", "except ArchiveLoadFailed as e:")),
    B('no rewind', (F, SK, "")),
    B('rewind too late', (F, SK + "            shutil.copyfileobj(decomp, tout)\n", "            shutil.copyfileobj(decomp, tout)\n            stream.seek(0)\n")),
    B('one member', (F, ", read_all_members=True", "")),
    B('copy not rewound', (F, "            tout.seek(0)\n", "")),
    B('second from stream', (F, "return self.load_and_write(tout, output)", "stream.seek(0)\n            return self.load_and_write(stream, output)")),
    B('tmp closed', (F, "            tout.seek(0)\n            return self.load_and_write(tout, output)", "            tout.seek(0)\n        return self.load_and_write(tout, output)")),
    B('exit zero', (F, EX, "            sys.exit(0)\n")),
    B('no exit', (F, EX, "")),
    B('swallow second', (F, "                    count = self.decompress_and_recompress(stream, self.output)\n", "                    try:\n                        count = self.decompress_and_recompress(stream, self.output)\n                    except EOFError:\n                        pass\n")),
    B('no second pass', (F, "                    count = self.decompress_and_recompress(stream, self.output)\n", "                    pass\n")),
    B('count off', (F, "            count = 0\n            msg", "            count = 0\n            msg"), (F, "        count = 0\n        with", "        count = 1\n        with")),
    B('count doubled', (F, "                count += 1\n", "                count += 2\n")),
    B('stream kept', (F, "            decomp = DecompressingBufferedReader(stream, read_all_members=True)\n", "            decomp = DecompressingBufferedReader(stream, read_all_members=True)\n            decomp.read(1)\n")),
    G('inlined helper', (F, "                    count = self.load_and_write(stream, self.output)\n", "                    written = self.load_and_write(stream, self.output)\n                    count = written\n")),
    G('enumerate', (F, CP, "                count = count + 1\n                writer.write_record(record)\n")),
    G('seek first', (F, "            decomp = DecompressingBufferedReader(stream, read_all_members=True)\n", "            stream.seek(0)\n            decomp = DecompressingBufferedReader(stream, read_all_members=True)\n"), (F, SK, "")),
    G('buffer size', (F, "shutil.copyfileobj(decomp, tout)", "shutil.copyfileobj(decomp, tout, 65536)")),
    G('default gzip', (F, "WARCWriter(filebuf=out, gzip=True)", "WARCWriter(out)")),
    G('status 2', (F, EX, "            sys.exit(2)\n")),
    G('iter var', (F, "            for record in ArchiveIterator(stream,", "            it = ArchiveIterator(stream,"), (F, "verify_http=False):\n", "verify_http=False)\n            for record in it:\n")),
    B('ARC conversion by file name', ('warcio/recompressor.py', '                                          arc2warc=True,\n', "                                          arc2warc=self.filename.endswith(('.arc', '.arc.gz')),\n")),
]
