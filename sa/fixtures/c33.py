from .util import B, G
S = 'warcio/statusandheaders.py'
CODE = "        code = self.statusline.split(' ', 1)[0]\n        return code\n"
CR = "        self.replace_header('Content-Range', content_range)\n"
EQ = "        return (self.statusline == other.statusline and\n                self.headers == other.headers and\n                self.protocol == other.protocol)\n"
VAL = "        try:\n            code = int(code)\n            assert(code > 0)\n            return True\n        except(ValueError, AssertionError):\n            self.statusline = valid_statusline\n            return False\n"
FIXTURES = [
    B('last word', (S, CODE, "        code = self.statusline.rsplit(' ', 1)[0]\n        return code\n")),
    B('second word', (S, CODE, "        code = self.statusline.split(' ', 1)[-1]\n        return code\n")),
    B('any blank', (S, CODE, "        code = self.statusline.split(None, 1)[0]\n        return code\n")),
    B('zero is valid', (S, "assert(code > 0)", "assert(code >= 0)")),
    B('above one hundred', (S, "assert(code > 0)", "assert(code >= 100)")),
    B('only value errors', (S, "except(ValueError, AssertionError)", "except ValueError")),
    B('not replaced', (S, "            self.statusline = valid_statusline\n", "")),
    B('always replaced', (S, VAL, "        self.statusline, old = valid_statusline, self.statusline\n        try:\n            code = int(code)\n            assert(code > 0)\n            return True\n        except(ValueError, AssertionError):\n            return False\n")),
    B('says valid', (S, "            self.statusline = valid_statusline\n            return False", "            self.statusline = valid_statusline\n            return True")),
    B('isdigit', (S, VAL, "        if code.isdigit():\n            return True\n        self.statusline = valid_statusline\n        return False\n")),
    B('end of range', (S, "start + part_len - 1,", "start + part_len,")),
    B('range and total', (S, "total_len)\n\n        self.statusline", "part_len)\n\n        self.statusline")),
    B('range added', (S, CR, "        self.add_header('Content-Range', content_range)\n")),
    B('length of all', (S, "str(part_len)", "str(total_len)")),
    B('no accept', (S, "        self.replace_header('Accept-Ranges', 'bytes')\n", "")),
    B('accept none', (S, "'Accept-Ranges', 'bytes'", "'Accept-Ranges', 'none'")),
    B('status kept', (S, "        self.statusline = '206 Partial Content'\n", "")),
    B('returns nothing', (S, "        self.replace_header('Accept-Ranges', 'bytes')\n        return self\n", "        self.replace_header('Accept-Ranges', 'bytes')\n")),
    B('protocol ignored', (S, EQ, "        return (self.statusline == other.statusline and\n                self.headers == other.headers)\n")),
    B('headers ignored', (S, EQ, "        return (self.statusline == other.statusline and\n                self.protocol == other.protocol)\n")),
    B('or', (S, EQ, EQ.replace("headers and", "headers or"))),
    B('compared to itself', (S, EQ, EQ.replace("other.protocol", "self.protocol"))),
    B('length compared', (S, EQ, EQ.replace("self.total_len", "x").replace("self.protocol == other.protocol)", "self.protocol == other.protocol and\n                self.total_len == other.total_len)"))) if False else
    B('headers of the other only', (S, EQ, EQ.replace("self.headers == other.headers", "len(self.headers) == len(other.headers)"))),
    B('ne is eq', (S, "return not (self == other)", "return self == other")),
    B('truth is line', (S, "return bool(self.statusline or self.headers)", "return bool(self.statusline)")),
    B('truth is both', (S, "return bool(self.statusline or self.headers)", "return bool(self.statusline and self.headers)")),
    G('partition', (S, CODE, "        return self.statusline.partition(' ')[0]\n")),
    G('split all', (S, CODE, "        words = self.statusline.split(' ')\n        return words[0]\n")),
    G('if instead of assert', (S, VAL, "        try:\n            valid = int(code) > 0\n        except ValueError:\n            valid = False\n        if not valid:\n            self.statusline = valid_statusline\n        return valid\n")),
    G('at least one', (S, "assert(code > 0)", "assert(code >= 1)")),
    G('percent', (S, "        content_range = 'bytes {0}-{1}/{2}'.format(start,\n                                                   start + part_len - 1,\n                                                   total_len)\n", "        end = start + part_len - 1\n        content_range = 'bytes %d-%d/%d' % (start, end, total_len)\n")),
    G('setitem', (S, CR, "        self['Content-Range'] = content_range\n")),
    G('loop of headers', (S, CR + "        self.replace_header('Content-Length', str(part_len))\n        self.replace_header('Accept-Ranges', 'bytes')\n", "        for name, value in (('Content-Range', content_range), ('Content-Length', str(part_len)), ('Accept-Ranges', 'bytes')):\n            self.replace_header(name, value)\n")),
    G('eq by ifs', (S, EQ, "        if self.statusline != other.statusline:\n            return False\n        if self.headers != other.headers:\n            return False\n        return self.protocol == other.protocol\n")),
    G('eq of tuples', (S, EQ, "        return ((self.statusline, self.headers, self.protocol) ==\n                (other.statusline, other.headers, other.protocol))\n")),
    G('truth by if', (S, "return bool(self.statusline or self.headers)", "if self.statusline:\n            return True\n        return bool(self.headers)")),
    B('status lines compared without spaces', ('warcio/statusandheaders.py', '        return (self.statusline == other.statusline and', '        return (self.statusline.strip() == other.statusline.strip() and')),
    B('headers compared as dicts', ('warcio/statusandheaders.py', '                self.headers == other.headers and', '                dict(self.headers) == dict(other.headers) and')),
    G('compared as tuples', ('warcio/statusandheaders.py', '        return (self.statusline == other.statusline and\n                self.headers == other.headers and\n                self.protocol == other.protocol)', '        return (self.protocol, self.statusline, self.headers) == (other.protocol, other.statusline, other.headers)')),
    G('compared one by one', ('warcio/statusandheaders.py', '        return (self.statusline == other.statusline and\n                self.headers == other.headers and\n                self.protocol == other.protocol)', '        if self is other:\n            return True\n        if self.protocol != other.protocol:\n            return False\n        if self.headers != other.headers:\n            return False\n        return self.statusline == other.statusline')),
    B('protocol not compared', ('warcio/statusandheaders.py', '        return (self.statusline == other.statusline and\n                self.headers == other.headers and\n                self.protocol == other.protocol)', '        return (self.statusline == other.statusline and\n                self.headers == other.headers)')),
]
