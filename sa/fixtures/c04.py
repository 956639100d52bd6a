from .util import *
R = 'warcio/recordloader.py'
I = 'warcio/archiveiterator.py'
FIXTURES = [
    B('arc1-no-sub', (R, "            if the_format == 'warc':\n                sub_len = 0\n            else:\n                sub_len = rec_headers.total_len", "            if the_format == 'warc':\n                sub_len = 0\n            else:\n                sub_len = 0")),
    B('warc-sub', (R, "                sub_len = 0\n", "                sub_len = rec_headers.total_len\n")),
    B('negative-kept', (R, "                if length < 0:\n", "                if length < -1:\n")),
    B('typeerror-dies', (R, "            if length is not None:\n                length = int(length) - sub_len", "            if length:\n                length = abs(int(length)) - sub_len")),
    B('err-none', (R, "            length = 0\n\n        is_ver", "            length = None\n\n        is_ver")),
    B('payload-start', (R, "payload_length = length - (stream.tell() - start)", "payload_length = length - stream.tell()")),
    B('payload-sign', (R, "payload_length = length - (stream.tell() - start)", "payload_length = length - (start - stream.tell())")),
    B('made-up-payload', (R, "            if length is not None and payload_length < 0:\n                payload_length = length\n", "")),
    B('http-zero', (R, "        if length == 0:\n            return None\n", "        if not length:\n            return None\n")),
    B('types', (R, "HTTP_RECORDS = ('response', 'request', 'revisit')", "HTTP_RECORDS = ('response', 'request', 'revisit', 'resource')")),
    B('types-less', (R, "HTTP_RECORDS = ('response', 'request', 'revisit')", "HTTP_RECORDS = ('response', 'request')")),
    B('req-parser', (R, "return self.http_req_parser.parse(stream)", "return self.http_parser.parse(stream)")),
    B('eof-all', (R, "        elif rec_type == 'revisit':\n", "        elif rec_type != 'x':\n")),
    B('http-stream', (R, "self.load_http_headers(rec_type, uri, stream, length)", "self.load_http_headers(rec_type, uri, rec_headers and stream, None)")),
    B('uri-space', (R, 'rec_headers.replace_header(\'WARC-Target-URI\', uri)\n\n        return', 'return uri\n\n        return')),
    B('uri-strip', (R, "uri.startswith('<') and uri.endswith('>')", "uri.startswith('<')")),
    B('uri-strip2', (R, "uri = uri[1:-1]", "uri = uri[1:]")),
    B('arc-type', (R, "uri.startswith('filedesc://'):\n                rec_type", "not uri.startswith('filedesc://'):\n                rec_type")),
    B('known-format', (R, "if known_format != 'arc':", "if known_format == 'warc' or known_format is None or stream is None or True:")),
    B('line-lost', (R, "                statusline = se.statusline\n                pass\n", "                statusline = None\n                pass\n")),
    B('error-type', (R, "                msg = 'Unknown archive format, first line: '\n", "                raise\n")),
    B('ensure', (R, "if not http_headers and ensure_http_headers:", "if http_headers is not None and ensure_http_headers:")),
    B('default-len', (R, "self.default_http_headers(length, content_type)", "self.default_http_headers(payload_length, content_type)")),
    B('verify-warc', (R, "StatusAndHeadersParser(self.WARC_TYPES)", "StatusAndHeadersParser(self.WARC_TYPES, verify_http)")),
    B('warc11', (R, "'WARC/1.1', 'WARC/1.0'", "'WARC/1.0'")),
    B('patch', (R, "'OPTIONS', 'CONNECT', 'PATCH'", "'OPTIONS', 'CONNECT'")),
    B('swap-opts', (I, "                                                 self.no_record_parse,\n                                                 self.ensure_http_headers,", "                                                 self.ensure_http_headers,\n                                                 self.no_record_parse,")),
    B('arc-iter', (I, "        self.known_format = 'arc'", "        self.mixed_arc_warc = 'arc'")),
    B('scheme', (R, "HTTP_SCHEMES = ('http:', 'https:')", "HTTP_SCHEMES = ('http:',)")),
    G('helper', (R, """        try:
            if length is not None:
                length = int(length) - sub_len
                if length < 0:
                    is_err = True

        except (ValueError, TypeError):
            is_err = True

        # err condition
        if is_err:
            length = 0
""", """        length = self._block_length(length, sub_len)
"""), (R, "    def wrap_digest_verifying_stream(", """    def _block_length(self, length, sub_len):
        if length is None:
            return None
        try:
            n = int(length) - sub_len
        except (ValueError, TypeError):
            return 0
        return n if n >= 0 else 0

    def wrap_digest_verifying_stream(""")),
    G('http-reorder', (R, """        # only if length == 0 don't parse
        # try parsing is length is unknown (length is None) or length > 0
        if length == 0:
            return None

        # only certain record types can have http headers
        if rec_type not in self.HTTP_RECORDS:
            return None
""", """        if rec_type not in ('request', 'response', 'revisit'):
            return None
        if length is not None and length == 0:
            return None
""")),
    G('uri', (R, """        if uri is not None and uri.startswith('<') and uri.endswith('>'):
            uri = uri[1:-1]
            rec_headers.replace_header('WARC-Target-URI', uri)

        if uri is not None and " " in uri:""", """        if uri is None:
            return None
        wrapped = uri.startswith('<') and uri.endswith('>')
        if wrapped:
            uri = uri[1:-1]
            rec_headers.replace_header('WARC-Target-URI', uri)

        if " " in uri:""")),
    G('parse-pick', (R, """        # request record: parse request
        if rec_type == 'request':
            return self.http_req_parser.parse(stream)

        elif rec_type == 'revisit':
            try:
                return self.http_parser.parse(stream)
            except EOFError:
                # empty revisit with no http headers, is ok!
                return None

        # response record or non-empty revisit: parse HTTP status and headers!
        else:
            return self.http_parser.parse(stream)
""", """        parser = self.http_req_parser if rec_type == 'request' else self.http_parser
        try:
            return parser.parse(stream)
        except EOFError:
            if rec_type != 'revisit':
                raise
        return None
""")),
    G('single-return', (R, """        if the_format == 'arc':
            uri = rec_headers.get_header('uri')
            length = rec_headers.get_header('length')
            content_type = rec_headers.get_header('content-type')
            sub_len = rec_headers.total_len
            if uri and uri.startswith('filedesc://'):
                rec_type = 'arc_header'
            else:
                rec_type = 'response'
""", """        if the_format == 'arc':
            get = rec_headers.get_header
            uri = get('uri')
            length = get('length')
            content_type = get('content-type')
            sub_len = rec_headers.total_len
            rec_type = 'arc_header' if (uri or '').startswith('filedesc://') else 'response'
""")),
    B('empty http block', (R, "if length and http_headers is not None:", "if length and http_headers:")),
    B('brackets stripped singly', ('warcio/recordloader.py', "if uri is not None and uri.startswith('<') and uri.endswith('>'):\n            uri = uri[1:-1]", "if uri is not None and uri.startswith('<'):\n            uri = uri.strip('<>')")),
]
