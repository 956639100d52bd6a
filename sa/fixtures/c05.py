from .util import B, G
D = 'warcio/digestverifyingreader.py'
L = 'warcio/recordloader.py'
A = 'warcio/archiveiterator.py'
UP = """        if self.payload_digester:
            self.payload_digester.update(buff)
        if self.block_digester:
            self.block_digester.update(buff)

        if self.limit == 0:
            self._check_block()
"""
FIXTURES = [
    B('block fed only with payload', (D, "        if self.block_digester:\n            self.block_digester.update(buff)", "        if self.block_digester and self.payload_digester:\n            self.block_digester.update(buff)")),
    B('stripped feed', (D, "self.payload_digester.update(buff)", "self.payload_digester.update(buff.rstrip())")),
    B('double feed', (D, "        if self.block_digester:\n            self.block_digester.update(buff)", "        if self.block_digester:\n            self.block_digester.update(buff)\n            if not self.payload_digest:\n                self.block_digester.update(buff)")),
    B('payload fed from start', (D, "        self.payload_digester = None\n        self.payload_digester_obj = None\n        self.block_digester = None\n", "        self.payload_digester = None\n        self.payload_digester_obj = None\n        self.block_digester = None\n        if record_type == 'resource' and payload_digest:\n            self.payload_digester = Digester('sha1')\n")),
    B('compare early', (D, "        if self.limit == 0:\n            self._check_block()", "        if self.limit <= 2:\n            self._check_block()")),
    B('compare only full', (D, "        if self.limit == 0:\n            self._check_block()", "        if self.limit == 0 and len(buff) > 1:\n            self._check_block()")),
    B('empty payload unchecked', (D, "        if self.limit == 0:\n            check = _check_digest(self.payload_digester, self.payload_digest)\n            if check is False:\n                self.digest_checker.problem('payload digest failed: {}'", "        if self.limit == 0 and self._orig_limit == 0:\n            check = _check_digest(self.payload_digester, self.payload_digest)\n            if check is False:\n                self.digest_checker.problem('payload digest failed: {}'")),
    B('empty block unchecked', (D, "        if self._orig_limit == 0:\n            self._check_block()\n", "")),
    B('revisit block checked', (D, "            block_digest = None\n            payload_digest = None\n        if seg", "            payload_digest = None\n        if seg")),
    B('segment checked', (D, "        if segment_number is not None:  #pragma: no cover\n            payload_digest = None\n", "")),
    B('algo fixed', (D, "                algo, _ = _parse_digest(block_digest)\n                self.block_digester = Digester(algo)", "                algo, _ = _parse_digest(block_digest)\n                self.block_digester = Digester('sha1')")),
    B('unknown silently', (D, "                self.digest_checker.problem('unknown hash algorithm name in block digest')\n", "")),
    B('only when both', (L, "if not payload_digest and not block_digest:", "if not payload_digest or not block_digest:")),
    B('swapped', (L, "payload_digest=payload_digest,\n                                       block_digest=block_digest", "payload_digest=block_digest,\n                                       block_digest=payload_digest")),
    B('no begin', (L, "        if is_verifying:\n            stream.begin_payload()", "        if is_verifying and not no_record_parse:\n            stream.begin_payload()")),
    B('begin first', (L, "        http_headers = None\n        payload_length = -1\n", "        http_headers = None\n        payload_length = -1\n        if is_verifying:\n            stream.begin_payload()\n")),
    B('wrong checker', (L, "stream = DigestVerifyingReader(stream, length, digest_checker,", "stream = DigestVerifyingReader(stream, length, DigestChecker(False),")),
    B('not wrapped for raise', (L, "            if check_digests:\n", "            if check_digests is True:\n")),
    B('option lost', (A, "                                                 self.check_digests)", "                                                 False)")),
    B('zero length skipped', (L, "        if length is not None and length >= 0:\n            stream = L", "        if length is not None and length > 0:\n            stream = L")),
    B('begin no payload', (D, "        self.payload_digester = self.payload_digester_obj\n", "        if self.limit == 0 or self._orig_limit > self.limit:\n            self.payload_digester = self.payload_digester_obj\n")),
    G('loop over digesters', (D, UP, """        for digester in (self.payload_digester, self.block_digester):
            if digester:
                digester.update(buff)

        if self.limit == 0:
            self._check_block()
""")),
    G('finish helper', (D, """        if self.limit == 0:
            self._check_block()
            check = _check_digest(self.payload_digester, self.payload_digest)
            if check is False:
                self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
            elif check is True and self.digest_checker.passed is not False:
                self.digest_checker.passed = True

        return buff
""", """        if not self.limit:
            self._finish()
        return buff

    def _finish(self):
        self._check_block()
        res = _check_digest(self.payload_digester, self.payload_digest)
        if res is None:
            return
        if not res:
            self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
            return
        if self.digest_checker.passed is not False:
            self.digest_checker.passed = True
""")),
    G('loader inline', (L, "            if check_digests:\n                stream, is_verifying = self.wrap_digest_verifying_stream(stream, rec_type,\n                                                                         rec_headers, digest_checker,\n                                                                         length=length)\n",
      """            if check_digests and (rec_headers.get_header('warc-payload-digest') or rec_headers.get_header('warc-block-digest')):
                is_verifying = True
                stream = DigestVerifyingReader(stream, length, digest_checker, record_type=rec_type,
                                               payload_digest=rec_headers.get_header('WARC-Payload-Digest'),
                                               block_digest=rec_headers.get_header('WARC-Block-Digest'),
                                               segment_number=rec_headers.get_header('WARC-Segment-Number'))
""")),
    G('early return', (D, "        if self.limit == 0:\n            self._check_block()\n            check = _check_digest(self.payload_digester, self.payload_digest)\n            if check is False:\n                self.digest_checker.problem('payload digest failed {}'", "        if self.limit != 0:\n            return buff\n        if True:\n            self._check_block()\n            check = _check_digest(self.payload_digester, self.payload_digest)\n            if check is False:\n                self.digest_checker.problem('payload digest failed {}'")),
]
