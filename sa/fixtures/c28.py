from .util import B, G
F = 'warcio/recordloader.py'
FDL = """            version = stream.readline()  # skip version
            spec = stream.readline()  # skip header spec, use preset one
            total_read += len(version)
            total_read += len(spec)
"""
LOOP = """        for name, value in zip(self.headernames, parts):
            if name == 'WARC-Date':
                value = timestamp_to_iso_date(value)

            if rec_type == 'warcinfo' and name == 'WARC-Target-URI':
                name = 'WARC-Filename'
                value = value[len('filedesc://'):]

            headers.append((name, value))
"""
FIXTURES = [
    B('one line', (F, FDL, "            version = stream.readline()\n            total_read += len(version)\n")),
    B('spec not counted', (F, "            total_read += len(spec)\n", "")),
    B('counted decoded', (F, "            version = stream.readline()  # skip version\n", "            version = StatusAndHeadersParser.decode_header(stream.readline())\n")),
    B('header line counted', (F, "            total_read += len(version)\n", "            total_read += header_len\n            total_read += len(version)\n")),
    B('counted always', (F, "        total_read = 0\n\n        if headerline is None", "        total_read = 1\n\n        if headerline is None")),
    B('split from the front', (F, "headerline.rsplit(' ', len(headernames)-1)", "headerline.split(' ', len(headernames)-1)")),
    B('split all', (F, "headerline.rsplit(' ', len(headernames)-1)", "headerline.rsplit(' ')")),
    B('count too small', (F, "        if len(parts) != len(headernames):", "        if len(parts) < 2:")),
    B('no eof', (F, "        if header_len == 0:\n            raise EOFError()\n\n        headerline = headerline.rstrip()", "        headerline = headerline.rstrip()")),
    B('order of names', (F, '                           "WARC-IP-Address",\n                           "WARC-Date",', '                           "WARC-Date",\n                           "WARC-IP-Address",')),
    B('arc order', (F, '"uri", "ip-address", "archive-date",', '"uri", "archive-date", "ip-address",')),
    B('date not converted', (F, "                value = timestamp_to_iso_date(value)\n", "                pass\n")),
    B('filename keeps scheme', (F, "                value = value[len('filedesc://'):]\n", "")),
    B('filename cut', (F, "value[len('filedesc://'):]", "value[len('filedesc:///'):]")),
    B('file header keeps uri', (F, "                name = 'WARC-Filename'\n", "")),
    B('type swapped', (F, "            rec_type = 'warcinfo'\n", "            rec_type = 'metadata'\n")),
    B('content type of warcinfo', (F, "            rec_type = 'response'\n            parts[3]", "            rec_type = 'response'\n        parts[3]")),
    B('wrong part', (F, "            parts[3] = 'application", "            parts[1] = 'application")),
    B('empty dropped', (F, "            headers.append((name, value))\n\n        return ('WARC/1.0'", "            if value != '-':\n                headers.append((name, value))\n\n        return ('WARC/1.0'")),
    B('no record id', (F, "        headers.append(('WARC-Record-ID', StatusAndHeadersParser.make_warc_id()))\n", "")),
    B('arc type', (F, "        return 'arc2warc'", "        return 'arc'")),
    B('ip lost', (F, "            if rec_type == 'warcinfo' and name", "            if name == 'WARC-IP-Address' and value == '0.0.0.0':\n                continue\n\n            if rec_type == 'warcinfo' and name")),
    G('not line', (F, "        if header_len == 0:\n", "        if not headerline:\n")),
    G('loop elif', (F, LOOP, """        for name, value in zip(self.headernames, parts):
            if name == 'WARC-Date':
                headers.append((name, timestamp_to_iso_date(value)))
            elif name == 'WARC-Target-URI' and rec_type == 'warcinfo':
                headers.append(('WARC-Filename', value[len('filedesc://'):]))
            else:
                headers.append((name, value))
""")),
    G('content type in loop', (F, "            parts[3] = 'application/http;msgtype=response'\n", ""), (F, "            if rec_type == 'warcinfo' and name", "            if rec_type == 'response' and name == 'Content-Type':\n                value = 'application/http;msgtype=response'\n\n            if rec_type == 'warcinfo' and name")),
    G('sum', (F, FDL, "            version = stream.readline()\n            spec = stream.readline()\n            total_read = len(version) + len(spec)\n")),
    G('index', (F, LOOP, """        for index, name in enumerate(self.headernames):
            value = parts[index]
            if name == 'WARC-Date':
                value = timestamp_to_iso_date(value)

            if rec_type == 'warcinfo' and name == 'WARC-Target-URI':
                name = 'WARC-Filename'
                value = value[len('filedesc://'):]

            headers.append((name, value))
""")),
    G('helper', (F, FDL, "            total_read += self._skip_lines(stream)\n"), (F, "    @classmethod\n    def get_header_names(cls):\n        return cls.ARC_HEADERS", """    def _skip_lines(self, stream):
        version = stream.readline()
        spec = stream.readline()
        return len(version) + len(spec)

    @classmethod
    def get_header_names(cls):
        return cls.ARC_HEADERS""")),
    G('extend', (F, "        headers.append(('WARC-Type', rec_type))\n        headers.append(('WARC-Record-ID', StatusAndHeadersParser.make_warc_id()))\n", "        headers.extend([('WARC-Type', rec_type), ('WARC-Record-ID', StatusAndHeadersParser.make_warc_id())])\n")),
    G('list', (F, "        headers = []\n\n        for name, value in zip(self.headernames, parts):\n            headers.append((name, value))\n\n        return ('ARC/1.0', headers)", "        return ('ARC/1.0', list(zip(self.headernames, parts)))")),
]
