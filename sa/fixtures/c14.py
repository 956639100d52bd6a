from .util import B, G
F = 'warcio/warcwriter.py'
PAIR = "        self._write_warc_record(self.out, resp)\n        self._write_warc_record(self.out, req)\n"
LINK = """        req.rec_headers.replace_header('WARC-Target-URI', url)
        req.rec_headers.replace_header('WARC-Date', dt)

        resp_id = resp.rec_headers.get_header('WARC-Record-ID')
        if resp_id:
            req.rec_headers.add_header('WARC-Concurrent-To', resp_id)

        self._do_write_req_resp(req, resp, params)
"""
FIXTURES = [
    B('order', (F, PAIR, "        self._write_warc_record(self.out, req)\n        self._write_warc_record(self.out, resp)\n")),
    B('response only', (F, PAIR, "        self._write_warc_record(self.out, resp)\n        if params is None:\n            self._write_warc_record(self.out, req)\n")),
    B('twice', (F, PAIR, PAIR + "        if not self.gzip:\n            self._write_warc_record(self.out, resp)\n")),
    B('linked late', (F, LINK, LINK.replace("        self._do_write_req_resp(req, resp, params)\n", "").replace("        if resp_id:", "        self._do_write_req_resp(req, resp, params)\n        if resp_id:"))),
    B('response linked', (F, "req.rec_headers.add_header('WARC-Concurrent-To', resp_id)", "resp.rec_headers.add_header('WARC-Concurrent-To', req.rec_headers.get_header('WARC-Record-ID'))")),
    B('own id', (F, "resp_id = resp.rec", "resp_id = req.rec")),
    B('date added', (F, "req.rec_headers.replace_header('WARC-Date', dt)", "req.rec_headers.add_header('WARC-Date', dt)")),
    B('own date', (F, "dt = resp.rec", "dt = req.rec")),
    B('date only if none', (F, "        req.rec_headers.replace_header('WARC-Date', dt)\n", "        if not req.rec_headers.get_header('WARC-Date'):\n            req.rec_headers.replace_header('WARC-Date', dt)\n")),
    B('url missing', (F, "        req.rec_headers.replace_header('WARC-Target-URI', url)\n", "")),
    B('swapped', (F, "'WARC-Target-URI', url)", "'WARC-Target-URI', dt)")),
    B('id always', (F, "        if resp_id:\n            req", "        if True:\n            req")),
    G('write_record', (F, PAIR, "        self.write_record(resp)\n        self.write_record(req)\n")),
    G('loop', (F, PAIR, "        for record in (resp, req):\n            self._write_warc_record(self.out, record)\n")),
    G('copy helper', (F, "        req.rec_headers.replace_header('WARC-Target-URI', url)\n        req.rec_headers.replace_header('WARC-Date', dt)\n", "        for name, value in (('WARC-Target-URI', url), ('WARC-Date', dt)):\n            req.rec_headers.replace_header(name, value)\n")),
    G('id first', (F, LINK, LINK.replace("        req.rec_headers.replace_header('WARC-Date', dt)\n", "").replace("        self._do", "        req.rec_headers.replace_header('WARC-Date', dt)\n        self._do"))),
]
