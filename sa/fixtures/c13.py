from .util import B, G
R = 'warcio/recordbuilder.py'
S = 'warcio/statusandheaders.py'
INIT = """        warc_headers.replace_header('WARC-Type', record_type)
        if not warc_headers.get_header('WARC-Record-ID'):
            warc_headers.add_header('WARC-Record-ID', self._make_warc_id())

        if uri:
            warc_headers.replace_header('WARC-Target-URI', uri)

        if not warc_headers.get_header('WARC-Date'):
            warc_headers.add_header('WARC-Date', self.curr_warc_date())
"""
FIXTURES = [
    B('type added', (R, "warc_headers.replace_header('WARC-Type', record_type)", "warc_headers.add_header('WARC-Type', record_type)")),
    B('id twice', ((R, "        if not warc_headers.get_header('WARC-Record-ID'):\n            warc_headers.add_header('WARC-Record-ID'", "        if True:\n            warc_headers.add_header('WARC-Record-ID'"))),
    B('id constant', (S, "            id_ = uuid.uuid4()\n", "            id_ = uuid.UUID(int=0)\n")),
    B('id of uri', (R, "        return StatusAndHeadersParser.make_warc_id()\n", "        return StatusAndHeadersParser.make_warc_id('x')\n")),
    B('id braces', (S, "'<urn:uuid:{0}>'", "'urn:uuid:{0}'")),
    B('uri add', (R, "warc_headers.replace_header('WARC-Target-URI', uri)", "warc_headers.add_header('WARC-Target-URI', uri)")),
    B('uri only if none', (R, "        if uri:\n            warc", "        if uri and not warc_headers.get_header('WARC-Target-URI'):\n            warc")),
    B('date always', (R, "        if not warc_headers.get_header('WARC-Date'):\n", "        if True:\n")),
    B('date never for given', (R, "        if not warc_headers.get_header('WARC-Date'):\n", "        if not warc_headers_dict:\n")),
    B('dict dropped', (R, "list(warc_headers_dict.items())", "[]")),
    B('given ignored', (R, "        if not warc_headers:\n            warc_headers =", "        if not warc_headers or warc_headers_dict:\n            warc_headers =")),
    B('content type arg ignored', (R, "        if not warc_content_type:\n            warc", "        if True:\n            warc")),
    B('content type header ignored', (R, "            warc_content_type = warc_headers.get_header('Content-Type')\n\n            if not warc_content_type:\n                warc_content_type", "            if True:\n                warc_content_type")),
    B('wrong table', (R, "'request': 'application/http; msgtype=request'", "'request': 'application/http; msgtype=response'")),
    B('wrong default', (R, "'application/warc-record'", "'application/octet-stream'")),
    B('length not reduced', (R, "            if http_headers and length is not None:\n                length -= payload.tell() - start\n", "")),
    B('absolute', (R, "length -= payload.tell() - start", "length -= payload.tell()")),
    B('length None', (R, "            if http_headers and length is not None:\n", "            if length:\n                length = None\n            if http_headers and length is not None:\n")),
    B('payload length default', (R, "        record.payload_length = length\n", "        record.payload_length = length or -1\n")),
    B('payload length missing', (R, "        record.payload_length = length\n", "")),
    B('empty payload length', (R, "            payload = BytesIO()\n            length = 0\n", "            payload = BytesIO()\n")),
    B('headers read anyway', (R, "        if payload and not http_headers:\n", "        if payload:\n")),
    B('wrong loader args', (R, "loader.load_http_headers(record_type, uri, payload, length)", "loader.load_http_headers(record_type, uri, payload, None)")),
    B('no payload digest', (R, "        self.ensure_digest(record, block=False, payload=True)\n", "        self.ensure_digest(record, block=False, payload=False)\n")),
    B('version prefix', (R, "        return 'WARC/' + version\n", "        return version\n")),
    B('version always prefix', (R, "        if version.startswith('WARC/'):\n            return version\n", "")),
    B('version default', (R, "    WARC_VERSION = WARC_1_0\n", "    WARC_VERSION = WARC_1_1\n")),
    B('protocol default', (R, "list(warc_headers_dict.items()), protocol=self.warc_version)", "list(warc_headers_dict.items()), protocol=self.WARC_VERSION)")),
    B('info first only', (R, "            warcinfo.write(line.encode('utf-8'))\n", "            warcinfo.write(line.encode('utf-8'))\n            if not filename:\n                break\n")),
    B('info stops', (R, "            if not value:\n                continue\n", "            if not value:\n                break\n")),
    B('info lf', (R, "str(value) + '\\r\\n'", "str(value) + '\\n'")),
    B('info latin', (R, "line.encode('utf-8')", "line.encode('latin-1')")),
    B('info no rewind', (R, "        length = warcinfo.tell()\n        warcinfo.seek(0)\n", "        length = warcinfo.tell()\n")),
    B('info length', (R, "        length = warcinfo.tell()\n        warcinfo.seek(0)\n", "        warcinfo.seek(0)\n        length = warcinfo.tell()\n")),
    B('info filename', (R, "        if filename:\n            warc_headers.add_header('WARC-Filename', filename)\n", "        warc_headers.add_header('WARC-Filename', filename)\n")),
    B('info no date', (R, "        warc_headers.add_header('WARC-Date', self.curr_warc_date())\n\n        warcinfo", "        warcinfo")),
    B('info type', (R, "create_warc_record('', 'warcinfo',", "create_warc_record('', 'metadata',")),
    G('inlined init', (R, "            warc_headers = self._init_warc_headers(uri, record_type, warc_headers_dict)\n", "            warc_headers = StatusAndHeaders('', list(warc_headers_dict.items()), protocol=self.warc_version)\n" + '\n'.join('    ' + l if l else l for l in INIT.split('\n')))),
    G('info helper', (R, "            line = name + ': ' + str(value) + '\\r\\n'\n            warcinfo.write(line.encode('utf-8'))\n", "            warcinfo.write('{0}: {1}\\r\\n'.format(name, value).encode('utf-8'))\n")),
    G('items loop', (R, "        for name, value in six.iteritems(info):\n            if not value:\n                continue\n\n            line = name + ': ' + str(value) + '\\r\\n'\n            warcinfo.write(line.encode('utf-8'))\n", "        for name, value in info.items():\n            if value:\n                line = '%s: %s\\r\\n' % (name, value)\n                warcinfo.write(line.encode('utf-8'))\n")),
    G('or content type', (R, "        if not warc_content_type:\n            warc_content_type = warc_headers.get_header('Content-Type')\n\n            if not warc_content_type:\n                warc_content_type = self.WARC_RECORDS.get(record_type,\n                                                'application/warc-record')\n", "        warc_content_type = (warc_content_type or warc_headers.get_header('Content-Type') or\n                             self.WARC_RECORDS.get(record_type, 'application/warc-record'))\n")),
    G('dict or', (R, "        if warc_headers_dict is None:\n            warc_headers_dict = dict()\n\n        if payload and", "        warc_headers_dict = warc_headers_dict or {}\n\n        if payload and")),
    G('version fmt', (R, "        return 'WARC/' + version\n", "        return 'WARC/{0}'.format(version)\n")),
    G('measure length', (R, "                length -= payload.tell() - start\n", "                consumed = payload.tell() - start\n                length = length - consumed\n")),
]
