from .util import B, G
F = 'warcio/statusandheaders.py'
INNER = """            while next_line and next_line.startswith((' ', '\\t')):
                if value is not None:
                    value += next_line
                next_line, total_read = _strip_count(self.decode_header(stream.readline()),
                                                     total_read)
"""
SPLIT = """            result = line.split(':', 1)
            if len(result) == 2:
                name = result[0].rstrip(' \\t')
                value = result[1].lstrip()
            else:
                name = result[0]
                value = None
"""
APP = """            if value is not None:
                header = (name, value)
                headers.append(header)

            line = next_line
"""
PRE = """        for prefix in prefixs:
            if key_upper.startswith(prefix):
                plen = len(prefix)
                return (key_upper[:plen], key[plen:])
"""
FIXTURES = [
    B('reads on', (F, APP, APP + "\n            if not line:\n                line, total_read = _strip_count(self.decode_header(stream.readline()), total_read)\n")),
    B('stops early', (F, APP, APP + "            if name.lower() == 'connection':\n                break\n")),
    B('continuation past the end', (F, "            while next_line and next_line.startswith((' ', '\\t')):", "            while next_line.startswith((' ', '\\t')) or not next_line:")),
    B('split all colons', (F, "            result = line.split(':', 1)\n            if len(result) == 2:", "            result = line.split(':')\n            if len(result) >= 2:")),
    B('rsplit', (F, "line.split(':', 1)", "line.rsplit(':', 1)")),
    B('empty value dropped', (F, "            if value is not None:\n                header", "            if value:\n                header")),
    B('continuation replaces', (F, "                    value += next_line\n", "                    value = next_line\n")),
    B('continuation dropped', (F, "                if value is not None:\n                    value += next_line\n", "")),
    B('continuation only space', (F, "startswith((' ', '\\t'))", "startswith((' ',))")),
    B('front', (F, "headers.append(header)", "headers.insert(0, header)")),
    B('dropped repeated', (F, "                headers.append(header)\n", "                if header not in headers:\n                    headers.append(header)\n")),
    B('name value swapped', (F, "header = (name, value)", "header = (value, name)")),
    B('eof as empty', (F, "        if total_read == 0:\n            raise EOFError()\n        elif not", "        if not")),
    B('blank as eof', (F, "        if total_read == 0:\n", "        if not statusline:\n")),
    B('not refused', (F, "                raise StatusAndHeadersParserException(msg, full_statusline)\n", "                protocol_status = statusline.split(' ', 1)\n")),
    B('refused without verifying', (F, "        if self.verify:\n            protocol_status", "        if True:\n            protocol_status")),
    B('prefix not rest', (F, "            statusline = protocol_status[1].strip()\n", "            statusline = protocol_status[0].strip()\n")),
    B('status of the key', (F, "key[plen:])", "key_upper[plen:])")),
    B('rest off by one', (F, "key[plen:])", "key[plen + 1:])")),
    B('last prefix', (F, PRE, """        found = None
        for prefix in prefixs:
            if not key_upper.startswith(prefix):
                plen = len(prefix)
                return (key_upper[:plen], key[plen:])
""")),
    B('case matters', (F, "            if key_upper.startswith(prefix):", "            if key.startswith(prefix):")),
    B('decode ascii', (F, "            return to_native_str(line, 'iso-8859-1')", "            return to_native_str(line, 'ascii')")),
    B('decode no fallback', (F, """        except:
            # if fails, default to ISO-8859-1
""", """        except ValueError:
            raise
        except:
            # if fails, default to ISO-8859-1
""")),
    B('status line lines skipped', (F, "        elif not statusline:\n            return", "        elif not statusline and self.verify:\n            return")),
    G('partition', (F, SPLIT, """            name, sep, value = line.partition(':')
            name = name.rstrip(' \\t')
            value = value.lstrip() if sep else None
""")),
    G('in test', (F, SPLIT, """            if ':' in line:
                name, value = line.split(':', 1)
                name = name.rstrip(' \\t')
                value = value.lstrip()
            else:
                name, value = line, None
""")),
    G('append pair', (F, "                header = (name, value)\n                headers.append(header)\n", "                headers.append((name, value))\n")),
    G('helper', (F, """            next_line, total_read = _strip_count(self.decode_header(stream.readline()),
                                                 total_read)
""", """            next_line, total_read = self._next_line(stream, total_read)
"""), (F, "    @staticmethod\n    def split_prefix", """    def _next_line(self, stream, total_read):
        raw = self.decode_header(stream.readline())
        return raw.rstrip(), total_read + len(raw)

    @staticmethod
    def split_prefix""")),
    G('while true', (F, INNER, """            while True:
                if not next_line or not next_line.startswith((' ', '\\t')):
                    break
                if value is not None:
                    value += next_line
                next_line, total_read = _strip_count(self.decode_header(stream.readline()),
                                                     total_read)
""")),
    G('value strip', (F, "                value = result[1].lstrip()\n", "                value = result[1].strip()\n")),
    G('statusline test order', (F, "        if total_read == 0:\n            raise EOFError()\n        elif not statusline:", "        if not full_statusline:\n            raise EOFError()\n\n        if not statusline:")),
    G('prefix no local', (F, PRE, """        for prefix in prefixs:
            if not key_upper.startswith(prefix):
                continue
            return key_upper[:len(prefix)], key[len(prefix):]
""")),
    G('first char', (F, "next_line.startswith((' ', '\\t'))", "next_line[0] in ' \\t'")),
    G('joined values', (F, INNER, """            more = []
            while next_line and next_line.startswith((' ', '\\t')):
                more.append(next_line)
                next_line, total_read = _strip_count(self.decode_header(stream.readline()),
                                                     total_read)
            if value is not None:
                value += ''.join(more)
""")),
    B('no tabs', (F, "next_line.startswith((' ', '\\t'))", "next_line.startswith(' ')")),
    B('last word', ('warcio/statusandheaders.py', "            protocol_status = statusline.split(' ', 1)", "            protocol_status = statusline.rsplit(' ', 1)")),
    B('protocol in the case of the line', ('warcio/statusandheaders.py', '                return (key_upper[:plen], key[plen:])', '                return (key[:plen], key[plen:])')),
    G('prefix upper-cased again', ('warcio/statusandheaders.py', 'return (key_upper[:plen], key[plen:])', 'return (key[:plen].upper(), key[plen:])')),
    G('prefix returned', ('warcio/statusandheaders.py', 'return (key_upper[:plen], key[plen:])', 'return (prefix, key[plen:])')),
    B('continuation glued', ('warcio/statusandheaders.py', 'value += next_line', 'value += next_line.lstrip()')),
    G('continuation after one space', ('warcio/statusandheaders.py', 'value += next_line', "value += ' ' + next_line.lstrip()")),
]
