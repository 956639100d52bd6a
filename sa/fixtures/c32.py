from .util import B, G
D = 'warcio/digestverifyingreader.py'
RB = 'warcio/recordbuilder.py'
RL = 'warcio/recordloader.py'
S = 'warcio/statusandheaders.py'
U = 'warcio/utils.py'
BR = 'warcio/bufferedreaders.py'
H = 'warcio/capture_http.py'
T = 'warcio/timeutils.py'
WW = 'warcio/warcwriter.py'
I = 'warcio/indexer.py'
INIT = "        self._problem = []\n"
FIXTURES = [
    B('problems of the class', (D, "class DigestChecker(object):\n", "class DigestChecker(object):\n    _problem = []\n\n"), (D, INIT, "")),
    B('problems by default', (D, "def __init__(self, kind=None):\n        self._problem = []", "def __init__(self, kind=None, problems=[]):\n        self._problem = problems")),
    B('problems of the module', (D, INIT, "        self._problem = PROBLEMS\n"), (D, "class DigestChecker(object):\n", "PROBLEMS = []\n\n\nclass DigestChecker(object):\n")),
    B('problems extended', (D, "class DigestChecker(object):\n", "class DigestChecker(object):\n    _problem = []\n\n"), (D, INIT, ""), (D, "        self._problem.append(value)", "        self._problem += [value]")),
    B('headers by default', (RB, "    def create_revisit_record(self, uri, digest, refers_to_uri, refers_to_date,\n                              http_headers=None, warc_headers_dict=None):",
                             "    def create_revisit_record(self, uri, digest, refers_to_uri, refers_to_date,\n                              http_headers=None, warc_headers_dict={}):"),
      (RB, "        if warc_headers_dict is None:\n            warc_headers_dict = dict()\n\n        record = self.create", "        warc_headers_dict['WARC-Profile'] = self.REVISIT_PROFILE\n        record = self.create")),
    B('dict filled', (RB, "        warc_headers = StatusAndHeaders('', list(warc_headers_dict.items()), protocol=self.warc_version)\n        warc_headers.replace_header('WARC-Type', record_type)\n",
                      "        warc_headers_dict['WARC-Type'] = record_type\n        warc_headers = StatusAndHeaders('', list(warc_headers_dict.items()), protocol=self.warc_version)\n")),
    B('dict emptied', (RB, "        # compute Content-Type\n        if not warc_content_type:\n", "        # compute Content-Type\n        if not warc_content_type:\n            warc_content_type = warc_headers_dict.pop('Content-Type', None)\n        if not warc_content_type:\n")),
    B('dict updated', (RB, "        record = self.create_warc_record(uri, 'revisit',", "        warc_headers_dict.update({'WARC-Refers-To-Date': refers_to_date})\n        record = self.create_warc_record(uri, 'revisit',")),
    B('info filled', (RB, "        warcinfo = BytesIO()\n", "        warcinfo = BytesIO()\n        info.setdefault('format', 'WARC File Format 1.0')\n")),
    B('info emptied', (RB, "            if not value:\n                continue\n", "            if not value:\n                del info[name]\n                continue\n")),
    B('last uri kept', (RL, "        if rec_type not in self.HTTP_RECORDS:\n", "        self.last_type = rec_type\n        if rec_type not in self.HTTP_RECORDS:\n")),
    B('format kept', (RL, "                return 'warc', rec_headers\n", "                self.arc_parser = self.warc_parser\n                return 'warc', rec_headers\n")),
    B('one id', (S, "        return '<urn:uuid:{0}>'.format(id_)", "        StatusAndHeadersParser.last_id = id_\n        return '<urn:uuid:{0}>'.format(id_)")),
    B('status list grows', (S, "    def __init__(self, statuslist, verify=True):\n", "    def __init__(self, statuslist, verify=True, known=[]):\n        known.extend(statuslist)\n")),
    B('version counter', (RB, "    def _parse_warc_version(self, version):\n", "    def _parse_warc_version(self, version):\n        RecordBuilder.WARC_VERSION = version or self.WARC_VERSION\n")),
    B('version remembered', (RB, "    def curr_warc_date(self):\n", "    def curr_warc_date(self):\n        self.last = True\n")),
    B('decompressor cache', (BR, "        self.decomp_type = decomp_type\n", "        self.decomp_type = decomp_type\n        self.DECOMPRESSORS[decomp_type] = self.DECOMPRESSORS.get(decomp_type)\n"))if False else
    B('decompressor cache', (BR, "    def set_decomp(self, decomp_type):\n", "    def set_decomp(self, decomp_type):\n        self.DECOMPRESSORS.setdefault(decomp_type, None)\n")),
    B('digester cache', (U, "        self.digester = hashlib.new(type_)", "        if type_ not in DIGESTERS:\n            DIGESTERS[type_] = hashlib.new(type_)\n        self.digester = DIGESTERS[type_]"), (U, "class Digester(object):", "DIGESTERS = {}\n\n\nclass Digester(object):")),
    B('one hash', (U, "        self.digester = hashlib.new(type_)", "        self.digester = SHA1"), (U, "class Digester(object):", "SHA1 = hashlib.new('sha1')\n\n\nclass Digester(object):")),
    B('one buffer', (D, "class DigestChecker(object):\n", "class DigestChecker(object):\n    _problem = list()\n\n"), (D, INIT, "")),
    B('ordered table', (T, "def timestamp_to_datetime(", "def _note(x):\n    SEEN.update({x: 1})\n\n\nSEEN = collections.OrderedDict()\n\n\ndef timestamp_to_datetime("), (T, "import re\n", "import re\nimport collections\n")),
    B('month table', (T, "def timestamp_to_datetime(", "def _forget():\n    MONTHS.clear()\n\n\nMONTHS = {}\n\n\ndef timestamp_to_datetime(")),
    B('headers of the class', (H, "        self.warc_headers = {}\n", "        if remember_ip:\n            self.warc_headers = WH\n") if False else
      (H, "        self.warc_headers = {}\n", "        self.warc_headers = WARC_HEADERS\n"), (H, "class RequestRecorder(object):\n", "WARC_HEADERS = {}\n\n\nclass RequestRecorder(object):\n")),
    B('global counter', (WW, "    def write_record(self, record, params=None):\n", "    def write_record(self, record, params=None):\n        global WRITTEN\n        WRITTEN = record\n"), (WW, "class WARCWriter(BaseWARCWriter):", "WRITTEN = None\n\n\nclass WARCWriter(BaseWARCWriter):")),
    B('fields of the indexer', (I, "        self.fields = fields\n", "        self.fields = fields\n        fields.append('length')\n")),
    B('helper fills', (U, "class Digester(object):", "NAMES = ['sha1']\n\n\ndef _note(names, x):\n    for y in [x]:\n        names.append(y)\n    for y in [x]:\n        pass\n\n\ndef _noted(x):\n    _note(NAMES, x)\n\n\nclass Digester(object):")),
    G('constant dict read', (U, "        self.digester = hashlib.new(type_)", "        self.digester = KINDS.get(type_, lambda: hashlib.new(type_))()"), (U, "class Digester(object):", "KINDS = {'sha1': hashlib.sha1}\n\n\nclass Digester(object):")),
    G('default dict read', (RB, "                              http_headers=None, warc_headers_dict=None):", "                              http_headers=None, warc_headers_dict={}):")),
    G('dict copied', (RB, "        warc_headers = StatusAndHeaders('', list(warc_headers_dict.items()), protocol=self.warc_version)\n        warc_headers.replace_header('WARC-Type', record_type)\n",
                      "        warc_headers_dict = dict(warc_headers_dict)\n        warc_headers_dict['WARC-Type'] = record_type\n        warc_headers = StatusAndHeaders('', list(warc_headers_dict.items()), protocol=self.warc_version)\n")),
    G('class default overridden', (D, "class DigestChecker(object):\n", "class DigestChecker(object):\n    _problem = ()\n\n")),
    G('local list', (D, "        self._problem = []\n", "        problems = []\n        self._problem = problems\n")),
    G('list of the object', (D, "        self._problem.append(value)", "        self._problem += [value]")),
]
