from .util import B, G
C = 'warcio/cli.py'
I = 'warcio/indexer.py'
K = 'warcio/checker.py'
X = 'warcio/extractor.py'
R = 'warcio/recompressor.py'
FIXTURES = [
    B('payload for headers', (C, "_extractor.extract(cmd.payload, cmd.headers)", "_extractor.extract(cmd.headers, cmd.payload)")),
    B('both allowed', (C, "extract.add_mutually_exclusive_group()", "extract")),
    B('both allowed 2', (C, "add_mutually_exclusive_group()", "add_argument_group('what')")),
    B('headers value', (C, "group.add_argument('--headers', action='store_true'", "group.add_argument('--headers', default=''")),
    B('store false', (C, "recompress.add_argument('-v', '--verbose', action='store_true')", "recompress.add_argument('-v', '--verbose', action='store_false')")),
    B('one input', (C, "check.add_argument('inputs', nargs='+')", "check.add_argument('inputs')")),
    B('index needs input', (C, "index.add_argument('inputs', nargs='*'", "index.add_argument('inputs', nargs='+'")),
    B('no input at all', (C, "check.add_argument('inputs', nargs='+')", "check.add_argument('inputs', nargs='*')")),
    B('default fields', (C, "default='offset,warc-type,warc-target-uri'", "default='offset,warc-type'")),
    B('no stdin', (C, "    inputs = cmd.inputs or ('-',)  # default to stdin\n", "    inputs = cmd.inputs\n")),
    B('always stdin', (C, "    inputs = cmd.inputs or ('-',)  # default to stdin\n", "    inputs = ('-',)\n")),
    B('stdin text', (C, "cmd.inputs or ('-',)", "cmd.inputs or ('stdin',)")),
    B('output dropped', (C, "Indexer(cmd.fields, inputs, cmd.output)", "Indexer(cmd.fields, inputs, None)")),
    B('output and fields', (C, "Indexer(cmd.fields, inputs, cmd.output)", "Indexer(cmd.output, inputs, cmd.fields)")),
    B('not run', (C, "    _indexer.process_all()\n", "")),
    B('status lost', (C, "sys.exit(_checker.process_all())", "_checker.process_all()")),
    B('status zero', (C, "    sys.exit(_checker.process_all())", "    _checker.process_all()\n    sys.exit(0)")),
    B('status of verbose', (C, "sys.exit(_checker.process_all())", "sys.exit(_checker.process_all() if cmd.verbose else 0)")),
    B('recompress swapped', (C, "Recompressor(cmd.filename, cmd.output, cmd.verbose)", "Recompressor(cmd.output, cmd.filename, cmd.verbose)")),
    B('verbose dropped', (C, "Recompressor(cmd.filename, cmd.output, cmd.verbose)", "Recompressor(cmd.filename, cmd.output)")),
    B('arguments swapped', (C, "    recompress.add_argument('filename')\n    recompress.add_argument('output')\n", "    recompress.add_argument('output')\n    recompress.add_argument('filename')\n")),
    B('offset first', (C, "    extract.add_argument('filename')\n    extract.add_argument('offset')\n", "    extract.add_argument('offset')\n    extract.add_argument('filename')\n")),
    B('wrong function', (C, "check.set_defaults(func=checker)", "check.set_defaults(func=indexer)")),
    B('wrong offset', (C, "Extractor(cmd.filename, cmd.offset)", "Extractor(cmd.filename, 0)")),
    B('given arguments ignored', (C, "parser.parse_args(args=args)", "parser.parse_args()")),
    B('unknown ignored', (C, "cmd = parser.parse_args(args=args)", "cmd, rest = parser.parse_known_args(args=args)")),
    B('command optional', (C, "    subparsers.required = True\n", "    subparsers.required = False\n")),
    B('no short option', (C, "'-f', '--fields'", "'--fields'")),
    B('split at blanks', (I, "fields.split(',')", "fields.split()")),
    B('split once', (I, "fields.split(',')", "fields.split(',', 2)")),
    B('not split', (I, "            fields = fields.split(',')\n", "            fields = [fields]\n")) if False else
    B('list split', (I, "        if isinstance(fields, str):\n            fields = fields.split(',')\n", "")),
    B('verify ignored', (I, "        self.verify_http = verify_http\n", "        self.verify_http = False\n")),
    B('verbose never', (K, "        self.verbose = cmd.verbose\n", "        self.verbose = False\n")),
    B('first input', (K, "        self.inputs = cmd.inputs\n", "        self.inputs = cmd.inputs[:1]\n")),
    B('starts failed', (K, "self.exit_value = 0", "self.exit_value = 1")),
    B('output is input', (R, "        self.output = output\n", "        self.output = filename\n")),
    G('keywords', (C, "Recompressor(cmd.filename, cmd.output, cmd.verbose)", "Recompressor(filename=cmd.filename, output=cmd.output, verbose=cmd.verbose)")),
    G('if not inputs', (C, "    inputs = cmd.inputs or ('-',)  # default to stdin\n", "    inputs = cmd.inputs\n    if not inputs:\n        inputs = ['-']\n")),
    G('required kw', (C, "    subparsers = parser.add_subparsers(dest='cmd')\n    subparsers.required = True\n", "    subparsers = parser.add_subparsers(dest='cmd', required=True)\n")),
    G('status variable', (C, "    sys.exit(_checker.process_all())", "    status = _checker.process_all()\n    sys.exit(status)")),
    G('helper', (C, "    check.add_argument('inputs', nargs='+')\n    check.add_argument('-v', '--verbose', action='store_true')\n", "    check.add_argument('inputs', nargs='+')\n    _verbose(check)\n"), (C, "def get_version():", "def _verbose(p):\n    p.add_argument('-v', '--verbose', action='store_true')\n\n\ndef get_version():")),
    G('parsers in functions', (C, "    check = subparsers.add_parser('check', help='WARC digest checker')\n    check.add_argument('inputs', nargs='+')\n    check.add_argument('-v', '--verbose', action='store_true')\n    check.set_defaults(func=checker)\n", "    _check_parser(subparsers)\n"),
      (C, "def get_version():", "def _check_parser(subparsers):\n    check = subparsers.add_parser('check', help='WARC digest checker')\n    check.add_argument('inputs', nargs='+')\n    check.add_argument('-v', '--verbose', action='store_true')\n    check.set_defaults(func=checker)\n\n\ndef get_version():")),
    G('direct', (C, "    _extractor = Extractor(cmd.filename, cmd.offset)\n    _extractor.extract(cmd.payload, cmd.headers)", "    Extractor(cmd.filename, cmd.offset).extract(payload_only=cmd.payload, headers_only=cmd.headers)")),
    G('options in a loop', (C, "    recompress.add_argument('filename')\n    recompress.add_argument('output')\n", "    for name in ('filename', 'output'):\n        recompress.add_argument(name)\n")),
    G('offset is a number', (C, "extract.add_argument('offset')", "extract.add_argument('offset', type=int)")),
    G('function variable', (C, "    cmd.func(cmd)\n", "    func = cmd.func\n    func(cmd)\n")),
]
