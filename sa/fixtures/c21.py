from .util import B, G
F = 'warcio/checker.py'
CLI = 'warcio/cli.py'
PA = """                self.process_one(filename)
            except ArchiveLoadFailed as e:
                print(filename)
                print('  saw exception ArchiveLoadFailed: '+str(e).rstrip())
                print('  skipping rest of file')
                self.exit_value = 1
        return self.exit_value
"""
LOOP = "                _read_entire_stream(record.content_stream())\n"
V = """                if record.digest_checker.passed is False:
                    self.exit_value = 1
"""
TR = """                elif record.digest_checker.passed is None and digest_present and \\
                     rec_type != 'revisit' and getattr(record.raw_stream, 'limit', 0) > 0:
                    # file ends before the record does
                    self.exit_value = 1
                    output = ['record truncated, digest could not be checked']
"""
FIXTURES = [
    B('no digests', (F, "check_digests=True", "check_digests=False")),
    B('default digests', (F, ", check_digests=True", "")),
    B('swallowed file', (F, "                print('  skipping rest of file')\n                self.exit_value = 1\n", "                print('  skipping rest of file')\n")),
    B('break at failure', (F, "                self.exit_value = 1\n        return self.exit_value", "                self.exit_value = 1\n                break\n        return self.exit_value")),
    B('not caught', (F, "except ArchiveLoadFailed as e:", "except KeyError as e:")),
    B('wrong exc swallowed', (F, "            except ArchiveLoadFailed as e:\n", "            except OSError:\n                continue\n            except ArchiveLoadFailed as e:\n")),
    B('not returned', (F, "        return self.exit_value", "        return 0")),
    B('returned none', (F, "        return self.exit_value", "        self.exit_value")),
    B('reset per file', (F, "        printed_filename = False\n", "        printed_filename = False\n        self.exit_value = 0\n")),
    B('reset on pass', (F, "                    d_msg = 'digest pass'\n", "                    d_msg = 'digest pass'\n                    self.exit_value = 0\n")),
    B('assigned each record', (F, V, "                self.exit_value = 0\n" + V)),
    B('starts failed', (F, "        self.exit_value = 0\n", "        self.exit_value = 1\n")),
    B('content unread', (F, LOOP, "                record.content_stream()\n")),
    B('content read once', (F, LOOP, "                record.content_stream().read(1024)\n")),
    B('verdict early', (F, LOOP, "                passed = record.digest_checker.passed\n" + LOOP), (F, "if record.digest_checker.passed is False:", "if passed is False:"), (F, "elif record.digest_checker.passed is None and digest_present and", "elif passed is None and digest_present and"), (F, "elif record.digest_checker.passed is True", "elif passed is True"), (F, "elif record.digest_checker.passed is None and self", "elif passed is None and self")),
    B('verbose only', (F, "if record.digest_checker.passed is False:", "if record.digest_checker.passed is False and self.verbose:")),
    B('not passed', (F, "if record.digest_checker.passed is False:", "if not record.digest_checker.passed:")),
    B('by digest kind', (F, "if record.digest_checker.passed is False:", "if record.digest_checker.passed is False and rec_type != 'revisit':")),
    B('no truncation', (F, TR, "")),
    B('truncation payload only', (F, "digest_present = (record.rec_headers.get_header('WARC-Payload-Digest') or\n                                  record.rec_headers.get_header('WARC-Block-Digest'))", "digest_present = record.rec_headers.get_header('WARC-Payload-Digest')")),
    B('truncation any', (F, "rec_type != 'revisit' and getattr(record.raw_stream, 'limit', 0) > 0:", "rec_type != 'revisit':")),
    B('stops after failure', (F, "                        print('   ', o)", "                        print('   ', o)\n                    break")),
    B('problems not set', (F, V, "                if record.digest_checker.passed is False:\n                    pass\n")),
    B('exit not', (CLI, "sys.exit(_checker.process_all())", "_checker.process_all()")),
    B('exit zero', (CLI, "sys.exit(_checker.process_all())", "sys.exit(0 if _checker.process_all() else 1)")),
    G('early continue', (F, V, "                passed = record.digest_checker.passed\n" + V.replace('record.digest_checker.passed', 'passed'))),
    G('helper', (F, "                    self.exit_value = 1\n                    output = list", "                    self._fail()\n                    output = list"), (F, "    def process_one(", "    def _fail(self):\n        self.exit_value = 1\n\n    def process_one(")),
    G('truthy status', (F, "                self.exit_value = 1\n        return", "                self.exit_value = 2\n        return")),
    G('read loop', (F, "        piece = stream.read(1024*1024)\n        if len(piece) == 0:\n            break\n", "        if not stream.read(65536):\n            return\n")),
    G('none first', (F, V, "                if record.digest_checker.passed is not None and not record.digest_checker.passed:\n                    self.exit_value = 1\n")),
    G('status var', (CLI, "sys.exit(_checker.process_all())", "status = _checker.process_all()\n    sys.exit(status)")),
]
