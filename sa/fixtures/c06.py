from .util import B, G
from .c05 import D, UP
MATCH1 = "        elif check is True and self.digest_checker.passed is not False:\n            self.digest_checker.passed = True\n\n    def _update"
PB = """        self._problem.append(value)
        self._passed = passed
        if self.kind == 'raise':
            raise ArchiveLoadFailed(value)
        if self.kind == 'log':
            sys.stderr.write(value + '\\n')
"""
FIXTURES = [
    B('last wins', (D, MATCH1, MATCH1.replace(" and self.digest_checker.passed is not False", ""))),
    B('last wins payload', (D, "            elif check is True and self.digest_checker.passed is not False:\n                self.digest_checker.passed = True\n\n        return", "            elif check is True:\n                self.digest_checker.passed = True\n\n        return")),
    B('raise first', (D, PB, PB.replace("        self._passed = passed\n", "").replace("        if self.kind == 'log'", "        self._passed = passed\n        if self.kind == 'log'"))),
    B('not kept', (D, PB, PB.replace("        self._problem.append(value)\n", "        if not self._problem:\n            self._problem.append(value)\n"))),
    B('log only verbose', (D, PB, PB.replace("if self.kind == 'log':", "if self.kind == 'log' and len(self._problem) < 100:"))),
    B('passed default', (D, "def problem(self, value, passed=False)", "def problem(self, value, passed=None)")),
    B('decode error ignored', (D, "    except (ValueError, TypeError):\n        return False\n", "    except (ValueError, TypeError):\n        return None\n")),
    B('prefix compare', (D, "    if our_value == warc_b32:", "    if our_value[:len(warc_b32)] == warc_b32:")),
    B('lower compare', (D, "    if our_value == warc_b32:", "    if our_value.lower() == warc_b32.lower():")),
    B('algo compare', (D, "    if our_value == warc_b32:", "    if our_value == warc_b32 or our_algo == warc_algo:")),
    B('no mismatch report', (D, "            if check is False:\n                self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))", "            if check is False:\n                self.digest_checker.passed = self.digest_checker.passed or None")),
    B('match not recorded', (D, "            elif check is True and self.digest_checker.passed is not False:\n                self.digest_checker.passed = True\n\n        return", "            elif check is True and self.digest_checker.passed:\n                self.digest_checker.passed = True\n\n        return")),
    B('no urlsafe', (D, "    if '-' in value or '_' in value:\n        return base64.b64decode(value, altchars=base64_url_filename_safe_alt)\n    else:\n", "    if True:\n")),
    B('no base16', (D, "    if len(value) > length:\n        binary = base64.b16decode(value, casefold=True)\n    else:\n        binary = _b64_wrapper(value)", "    binary = _b64_wrapper(value)")),
    B('case sensitive hex', (D, "casefold=True", "casefold=False")),
    B('pass on no compare', (D, "        return _compare_digest_rfc_3548(digester, digest)\n", "        return _compare_digest_rfc_3548(digester, digest) or (True if not digest else False)\n")),
    B('starts true', (D, "        self._passed = None\n", "        self._passed = not kind\n")),
    B('log raise swapped', (D, PB, PB.replace("'raise'", "'x'").replace("'log'", "'raise'").replace("'x'", "'log'"))),
    G('flag style', (D, PB, """        self._passed = passed
        self.problems.append(value)
        if self.kind == 'log':
            sys.stderr.write(value + '\\n')
        elif self.kind == 'raise':
            raise ArchiveLoadFailed(value)
""")),
    G('returns bool', (D, "    if our_value == warc_b32:\n        return True\n\n    return False\n", "    return our_value == warc_b32\n")),
    G('loop over digesters', (D, UP, """        for digester in (self.payload_digester, self.block_digester):
            if digester:
                digester.update(buff)

        if self.limit == 0:
            self._check_block()
""")),
    G('record helper', (D, "            elif check is True and self.digest_checker.passed is not False:\n                self.digest_checker.passed = True\n\n        return buff", "            elif check:\n                self._ok()\n\n        return buff\n\n    def _ok(self):\n        if self.digest_checker.passed is False:\n            return\n        self.digest_checker.passed = True")),
]
