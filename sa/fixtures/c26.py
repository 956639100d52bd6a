from .util import B, G
F = 'warcio/statusandheaders.py'
LOOP = """        for h in self.headers:
            if filter_func:
                h = filter_func(h)
                if not h:
                    continue

            string += ': '.join(h) + '\\r\\n'

        return string
"""
TOP = """        string = self.protocol

        if string and self.statusline:
            string += ' '

        if self.statusline:
            string += self.statusline

        if string:
            string += '\\r\\n'
"""
FIXTURES = [
    B('no space', (F, "            string += ': '.join(h) + '\\r\\n'", "            string += ':'.join(h) + '\\r\\n'")),
    B('lf only', (F, "            string += ': '.join(h) + '\\r\\n'", "            string += ': '.join(h) + '\\n'")),
    B('empty value dropped', (F, "            string += ': '.join(h)", "            if not h[1]:\n                continue\n            string += ': '.join(h)")),
    B('stops at rejected', (F, "                    continue\n\n            string", "                    break\n\n            string")),
    B('original instead of filtered', (F, LOOP, """        for h in self.headers:
            if filter_func and not filter_func(h):
                continue

            string += ': '.join(h) + '\\r\\n'

        return string
""")),
    B('reversed', (F, "        for h in self.headers:\n            if filter", "        for h in reversed(self.headers):\n            if filter")),
    B('name twice', (F, "string += ': '.join(h) + '\\r\\n'", "string += '{0}: {0}\\r\\n'.format(h[0], h[1])")),
    B('crlf always', (F, "        if string:\n            string += '\\r\\n'", "        string += '\\r\\n'")),
    B('space always', (F, "        if string and self.statusline:\n            string += ' '", "        if string:\n            string += ' '")),
    B('status dropped without protocol', (F, "        if self.statusline:\n            string += self", "        if string and self.statusline:\n            string += self")),
    B('stripped end', (F, "        return string\n\n    def to_bytes", "        return string.rstrip()\n\n    def to_bytes")),
    B('filter not passed', (F, "        return self.to_str(filter_func).encode(encoding)", "        return self.to_str().encode(encoding)")),
    B('encoding ignored', (F, "        return self.to_str(filter_func).encode(encoding)", "        return self.to_str(filter_func).encode('utf-8')")),
    B('errors ignored', (F, "        return self.to_str(filter_func).encode(encoding)", "        return self.to_str(filter_func).encode(encoding, 'ignore')")),
    B('no empty line', (F, ".encode(encoding) + b'\\r\\n'", ".encode(encoding)")),
    B('ascii replace', (F, "            string = string.encode('ascii')\n        except", "            string = string.encode('ascii', 'replace')\n        except")),
    B('ascii utf8', (F, "            string = string.encode('ascii')\n        except", "            string = string.encode('utf-8')\n        except")),
    B('ascii not rebuilt', (F, "            self.percent_encode_non_ascii_headers()\n            string = self.to_str(filter_func)\n", "            self.percent_encode_non_ascii_headers()\n")),
    B('ascii filter lost', (F, "            self.percent_encode_non_ascii_headers()\n            string = self.to_str(filter_func)\n", "            self.percent_encode_non_ascii_headers()\n            string = self.to_str()\n")),
    B('ascii sub removed', (F, "            string = self.NON_ASCII_RX.sub(lambda m: quote(to_native_str(m.group())), string)\n", "")),
    B('percent drops header', (F, "                self.headers[index] = (curr_name, new_value)\n", "                del self.headers[index]\n")),
    B('percent name', (F, "                self.headers[index] = (curr_name, new_value)\n", "                self.headers[index] = (quote(curr_value), new_value)\n")),
    B('percent skips the first', (F, "        for index in range(len(self.headers) - 1, -1, -1):\n            curr_name", "        for index in range(len(self.headers) - 1, 0, -1):\n            curr_name")),
    B('percent stops', (F, "                self.headers[index] = (curr_name, new_value)\n", "                self.headers[index] = (curr_name, new_value)\n                break\n")),
    B('buffer unfiltered', (F, "self.to_ascii_bytes(header_filter)", "self.to_ascii_bytes()")),
    G('format', (F, "string += ': '.join(h) + '\\r\\n'", "string += '{0}: {1}\\r\\n'.format(h[0], h[1])")),
    G('concat', (F, "string += ': '.join(h) + '\\r\\n'", "string += h[0] + ': ' + h[1] + '\\r\\n'")),
    G('unpacked', (F, "string += ': '.join(h) + '\\r\\n'", "name, value = h\n            string += '%s: %s\\r\\n' % (name, value)")),
    G('list', (F, LOOP, """        lines = [string]
        for h in self.headers:
            if filter_func:
                h = filter_func(h)
            if h:
                lines.append(': '.join(h) + '\\r\\n')

        return ''.join(lines)
""")),
    G('inverted filter', (F, LOOP, """        for h in self.headers:
            out = filter_func(h) if filter_func else h
            if out:
                string += ': '.join(out) + '\\r\\n'

        return string
""")),
    G('top by cases', (F, TOP, """        if self.protocol and self.statusline:
            string = self.protocol + ' ' + self.statusline + '\\r\\n'
        elif self.protocol:
            string = self.protocol + '\\r\\n'
        elif self.statusline:
            string = self.statusline + '\\r\\n'
        else:
            string = ''
""")),
    G('top filter', (F, TOP, """        string = ' '.join(part for part in (self.protocol, self.statusline) if part)
        if string:
            string += '\\r\\n'
""")),
    G('to_bytes steps', (F, "        return self.to_str(filter_func).encode(encoding) + b'\\r\\n'", "        text = self.to_str(filter_func)\n        data = text.encode(encoding)\n        data += b'\\r\\n'\n        return data")),
    G('ascii direct return', (F, "            string = self.to_str(filter_func)\n            string = string.encode('ascii')\n        except", "            return self.to_str(filter_func).encode('ascii') + b'\\r\\n'\n        except")),
    B('latin-1 left', ('warcio/statusandheaders.py', '[^\\x00-\\x7f]+', '[^\\x00-\\xff]+')),
    G('pattern range', ('warcio/statusandheaders.py', '[^\\x00-\\x7f]+', '[\\x80-\\U0010ffff]')),
    G('line by format of the pair', ('warcio/statusandheaders.py', "        string = self.protocol\n\n        if string and self.statusline:\n            string += ' '\n\n        if self.statusline:\n            string += self.statusline\n\n        if string:\n            string += '\\r\\n'\n\n        for h in self.headers:\n            if filter_func:\n                h = filter_func(h)\n                if not h:\n                    continue\n\n            string += ': '.join(h) + '\\r\\n'\n\n        return string\n", "        string = self._first_line()\n\n        for h in self.headers:\n            h = filter_func(h) if filter_func else h\n            if h:\n                string += '{0}: {1}\\r\\n'.format(*h)\n\n        return string\n\n    def _first_line(self):\n        line = self.protocol\n        if self.statusline:\n            line += (' ' if line else '') + self.statusline\n        return line + '\\r\\n' if line else ''\n")),
    G('line by percent of the pair', ('warcio/statusandheaders.py', "string += ': '.join(h) + '\\r\\n'", "string += '%s: %s\\r\\n' % h")),
    B('line by format, value first', ('warcio/statusandheaders.py', "string += ': '.join(h) + '\\r\\n'", "string += '{1}: {0}\\r\\n'.format(*h)")),
]
