from .util import B, G
F = 'warcio/indexer.py'
VAL = """            if value is not None:
                field = self.field_names.get(field, field)
                index[field] = value
"""
HS = "            if record.rec_type in ('response', 'revisit') and record.http_headers:\n                value = record.http_headers.get_statuscode()\n"
FIXTURES = [
    B('truthy value', (F, "if value is not None:", "if value:")),
    B('always entered', (F, VAL, "            field = self.field_names.get(field, field)\n            index[field] = value\n")),
    B('stop at none', (F, VAL, VAL + "            else:\n                break\n")),
    B('skip record', (F, "        for record in it:\n", "        for record in it:\n            if record.rec_type == 'warcinfo':\n                continue\n")),
    B('only first', (F, "            self.process_index_entry(it, record, filename, output)\n", "            self.process_index_entry(it, record, filename, output)\n            break\n")),
    B('no newline', (F, "json.dumps(index) + '\\n'", "json.dumps(index)")),
    B('empty line dropped', (F, "        self._write_line(output, index, record, filename)\n", "        if index:\n            self._write_line(output, index, record, filename)\n")),
    B('line twice', (F, "        self._write_line(output, index, record, filename)\n", "        self._write_line(output, index, record, filename)\n        if 'length' in index:\n            self._write_line(output, index, record, filename)\n")),
    B('offset length', (F, "value = str(it.get_record_offset())", "value = str(it.get_record_length())")),
    B('offset next', (F, "value = str(it.get_record_offset())", "value = str(it.get_record_offset() + 1)")),
    B('full filename', (F, "os.path.basename(filename)", "filename")),
    B('status request', (F, "record.rec_type in ('response', 'revisit')", "record.rec_type in ('response', 'revisit', 'request')")),
    B('status no revisit', (F, "record.rec_type in ('response', 'revisit')", "record.rec_type == 'response'")),
    B('http prefix', (F, "get_header(name[5:])", "get_header(name[4:])")),
    B('http from warc', (F, "value = record.http_headers.get_header(name[5:])", "value = record.rec_headers.get_header(name[5:])")),
    B('httpstar', (F, "elif name.startswith('http:'):", "elif name.startswith('http'):")),
    B('status after', (F, "elif name == 'http:status':", "elif name == 'status':")),
    B('no arc', (F, "arc2warc=True", "arc2warc=False")),
    B('no parse', (F, "no_record_parse=not self.record_parse", "no_record_parse=self.record_parse")),
    B('parse first field', (F, "any(field.startswith('http:') for field in self.fields)", "self.fields[0].startswith('http:')")),
    B('parse status only', (F, "any(field.startswith('http:') for field in self.fields)", "'http:status' in self.fields")),
    B('one input', (F, "                    self.process_one(fh, out, filename)\n", "                    self.process_one(fh, out, filename)\n                    return\n")),
    B('output per input', (F, "        with fsspec_open(self.output, 'wt', sys.stdout) as out:\n            for filename in self.inputs:\n", "        for filename in self.inputs:\n            with fsspec_open(self.output, 'wt', sys.stdout) as out:\n")),
    B('wrong key', (F, "index[field] = value", "index[value] = field")),
    G('get field var', (F, "            value = self.get_field(record, field, it, filename)\n", "            name = field\n            value = self.get_field(record, name, it, filename)\n")),
    G('early continue', (F, VAL, "            if value is None:\n                continue\n            field = self.field_names.get(field, field)\n            index[field] = value\n")),
    G('returns', (F, "            value = str(it.get_record_offset())\n", "            return str(it.get_record_offset())\n")),
    G('format', (F, "str(it.get_record_length())", "'{0}'.format(it.get_record_length())")),
    G('inlined write', (F, "        self._write_line(output, index, record, filename)\n", "        line = json.dumps(index) + '\\n'\n        output.write(line)\n")),
    G('or', (F, "record.rec_type in ('response', 'revisit')", "(record.rec_type == 'response' or record.rec_type == 'revisit')")),
    G('loop parse', (F, "        self.record_parse = any(field.startswith('http:') for field in self.fields)\n", "        self.record_parse = False\n        for field in self.fields:\n            if field.startswith('http:'):\n                self.record_parse = True\n")),
    B('fields lowered', ('warcio/indexer.py', "            fields = fields.split(',')", "            fields = fields.lower().split(',')")),
    B('keys sorted', ('warcio/indexer.py', "json.dumps(index) + '\\n'", "json.dumps(index, sort_keys=True) + '\\n'")),
    B('no extension', ('warcio/indexer.py', '            value = os.path.basename(filename)', '            value = os.path.splitext(os.path.basename(filename))[0]')),
]
