from .util import B, G
F = 'warcio/warcwriter.py'
R = 'warcio/recordbuilder.py'
LEN = """        if record.http_headers is not None and record.payload_length >= 0:
            actual_len = 0

            if record.http_headers:
                actual_len = len(record.http_headers.headers_buff)

            if not http_headers_only:
                actual_len += record.payload_length

            record.length = actual_len
"""
SET = "        record.rec_headers.replace_header('Content-Length', str(record.length))\n"
FIXTURES = [
    B('stale length', (F, LEN, "")),
    B('added', (F, SET, SET.replace('replace', 'add'))),
    B('kept when there', (F, SET, "        if not record.rec_headers.get_header('Content-Length'):\n    " + SET)),
    B('payload only', (F, "                actual_len = len(record.http_headers.headers_buff)\n", "                pass\n")),
    B('text length', (F, "len(record.http_headers.headers_buff)", "len(record.http_headers.to_str())")),
    B('payload in revisit', (F, "            if not http_headers_only:\n                actual_len +=", "            if True:\n                actual_len +=")),
    B('extra end', (F, "                actual_len += record.payload_length\n", "                actual_len += record.payload_length + 4\n")),
    B('positive only', (F, "record.payload_length >= 0:", "record.payload_length > 0:")),
    B('no measured', (F, "            record.length = record.payload_length\n\n", "            record.length = record.rec_headers.get_header('Content-Length')\n\n")),
    B('cached header block', (F, "        if record.http_headers:\n            record.http_headers.compute_headers_buffer(self.header_filter)\n", "        if record.http_headers and not record.http_headers.headers_buff:\n            record.http_headers.compute_headers_buffer(self.header_filter)\n")),
    B('no filter', (F, "record.http_headers.compute_headers_buffer(self.header_filter)", "record.http_headers.compute_headers_buffer()")),
    B('after digest', (F, "        if record.http_headers:\n            record.http_headers.compute_headers_buffer(self.header_filter)\n", ""), (F, "        if record.content_type != None:\n", "        if record.http_headers:\n            record.http_headers.compute_headers_buffer(self.header_filter)\n        if record.content_type != None:\n")),
    B('recomputed without filter', (F, "        if record.http_headers:\n            out.write", "        if record.http_headers:\n            record.http_headers.compute_headers_buffer()\n            out.write")),
    B('set after', (F, SET, ""), (F, "        # write headers buffer, if any\n", SET + "\n")),
    B('record length not updated', (F, "            record.length = actual_len\n\n" + SET, "        else:\n            actual_len = record.length\n        record.rec_headers.replace_header('Content-Length', str(actual_len))\n")),
    G('one expression', (F, LEN, """        if record.http_headers is not None and record.payload_length >= 0:
            hlen = len(record.http_headers.headers_buff) if record.http_headers else 0
            record.length = hlen + (0 if http_headers_only else record.payload_length)
""")),
    G('format', (F, "str(record.length))", "'%d' % record.length)")),
    G('helper', (F, LEN, "        self._fix_length(record, http_headers_only)\n"), (F, "# ============================================================================\nclass GzippingWrapper", '''
    @staticmethod
    def _fix_length(record, http_headers_only):
        if record.http_headers is None:
            return
        if record.payload_length < 0:
            return
        total = 0
        if record.http_headers:
            total += len(record.http_headers.headers_buff)
        if not http_headers_only:
            total += record.payload_length
        record.length = total

# ============================================================================
class GzippingWrapper''')),
    G('revisit branch', (F, "            if not http_headers_only:\n                actual_len +=", "            if record.rec_type != 'revisit' or not record.http_headers:\n                actual_len +=")),
    B('length none', ('warcio/warcwriter.py', '            record.length = record.payload_length\n', '            record.length = record.payload_length or None\n')),
]
