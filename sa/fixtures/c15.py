from .util import B, G
R = 'warcio/recordbuilder.py'
H = """        record.rec_headers.add_header('WARC-Refers-To-Target-URI', refers_to_uri)
        record.rec_headers.add_header('WARC-Refers-To-Date', refers_to_date)
"""
PR = "        revisit_profile = self.REVISIT_PROFILE_1_1 if self.warc_version == self.WARC_1_1 else self.REVISIT_PROFILE\n"
FIXTURES = [
    B('empty digest', (R, "        assert digest, 'Digest can not be empty'\n", "")),
    B('none digest', (R, "assert digest,", "assert digest is not None,")),
    B('swapped', (R, H, H.replace('refers_to_uri', 'X').replace('refers_to_date', 'refers_to_uri').replace('X', 'refers_to_date'))),
    B('own uri', (R, "'WARC-Refers-To-Target-URI', refers_to_uri", "'WARC-Refers-To-Target-URI', uri")),
    B('no date', (R, "        record.rec_headers.add_header('WARC-Refers-To-Date', refers_to_date)\n", "")),
    B('profile by default version', (R, "self.warc_version == self.WARC_1_1", "self.WARC_VERSION == self.WARC_1_1")),
    B('profile swapped', (R, "self.REVISIT_PROFILE_1_1 if self.warc_version == self.WARC_1_1 else self.REVISIT_PROFILE", "self.REVISIT_PROFILE if self.warc_version == self.WARC_1_1 else self.REVISIT_PROFILE_1_1")),
    B('profile constant', (R, "revisit_profile = self.REVISIT_PROFILE_1_1 if self.warc_version == self.WARC_1_1 else self.REVISIT_PROFILE\n", "revisit_profile = self.REVISIT_PROFILE\n")),
    B('block digest', (R, "record.rec_headers.add_header('WARC-Payload-Digest', digest)", "record.rec_headers.add_header('WARC-Block-Digest', digest)")),
    B('http dropped', (R, "'revisit', http_headers=http_headers,", "'revisit',")),
    B('dict dropped', (R, "                                                         warc_headers_dict=warc_headers_dict)\n", "                                                         warc_headers_dict={})\n")),
    B('wrong type', (R, "(uri, 'revisit',", "(uri, 'response',")),
    G('branch', (R, PR, "        if self.warc_version == self.WARC_1_1:\n            revisit_profile = self.REVISIT_PROFILE_1_1\n        else:\n            revisit_profile = self.REVISIT_PROFILE\n")),
    G('raise', (R, "        assert digest, 'Digest can not be empty'\n", "        if not digest:\n            raise AssertionError('Digest can not be empty')\n")),
    G('loop', (R, H, "        for name, value in [('WARC-Refers-To-Target-URI', refers_to_uri), ('WARC-Refers-To-Date', refers_to_date)]:\n            record.rec_headers.add_header(name, value)\n")),
    G('not version', (R, PR, "        revisit_profile = self.REVISIT_PROFILE if self.warc_version != 'WARC/1.1' else self.REVISIT_PROFILE_1_1\n")),
]
