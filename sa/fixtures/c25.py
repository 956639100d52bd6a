from .util import B, G
F = 'warcio/statusandheaders.py'
U = 'warcio/utils.py'
LOOK = """        for value in self.headers:
            if value[0].lower() == name_lower:
                return value[1]

        return default_value
"""
REPL = """        for index in range(len(self.headers)):
            curr_name, curr_value = self.headers[index]
            if curr_name.lower() == name_lower:
                self.headers[index] = (curr_name, value)
                return curr_value
"""
REM = """        for index in range(len(self.headers) - 1, -1, -1):
            if self.headers[index][0].lower() == name_lower:
                del self.headers[index]
                removed = True
"""
FIXTURES = [
    B('lookup case sensitive', (F, "            if value[0].lower() == name_lower:", "            if value[0] == name:")),
    B('lookup from the last', (F, "        for value in self.headers:\n", "        for value in reversed(self.headers):\n")),
    B('lookup skips the first', (F, LOOK, """        for index in range(1, len(self.headers)):
            value = self.headers[index]
            if value[0].lower() == name_lower:
                return value[1]

        return default_value
""")),
    B('lookup last match', (F, LOOK, """        found = default_value
        for value in self.headers:
            if value[0].lower() == name_lower:
                found = value[1]

        return found
""")),
    B('lookup returns name', (F, "                return value[1]\n", "                return value[0]\n")),
    B('lookup default lost', (F, "        return default_value\n", "        return None\n")),
    B('replace forgets append', (F, "        self.headers.append((name, value))\n        return None\n", "        return None\n")),
    B('replace appends too', (F, "                self.headers[index] = (curr_name, value)\n                return curr_value\n", "                self.headers[index] = (curr_name, value)\n                break\n")),
    B('replace returns new', (F, "                return curr_value\n", "                return value\n")),
    B('replace all matches', (F, "                return curr_value\n\n", "                old = curr_value\n\n")),
    B('replace skips last', (F, "        for index in range(len(self.headers)):\n            curr_name", "        for index in range(len(self.headers) - 1):\n            curr_name")),
    B('remove forwards', (F, "        for index in range(len(self.headers) - 1, -1, -1):\n            if self", "        for index in range(len(self.headers)):\n            if self")),
    B('remove only one', (F, "                removed = True\n", "                return True\n")),
    B('remove misses index 0', (F, "range(len(self.headers) - 1, -1, -1):\n            if", "range(len(self.headers) - 1, 0, -1):\n            if")),
    B('remove says no', (F, "                removed = True\n", "                removed = False\n")),
    B('remove case', (F, "            if self.headers[index][0].lower() == name_lower:", "            if self.headers[index][0] == name:")),
    B('add at front', (F, "    def add_header(self, name, value):\n        self.headers.append((name, value))\n", "    def add_header(self, name, value):\n        self.headers.insert(0, (name, value))\n")),
    B('add drops empty value', (F, "    def add_header(self, name, value):\n        self.headers.append((name, value))\n", "    def add_header(self, name, value):\n        if value:\n            self.headers.append((name, value))\n")),
    B('setitem adds', (F, "    __setitem__ = replace_header\n", "    __setitem__ = add_header\n")),
    B('contains truthy', (F, "        return self[key] is not None\n", "        return bool(self[key])\n")),
    B('caller list shared', (F, "        self.headers = headers_to_str_headers(headers)\n", "        self.headers = headers\n")),
    B('decoded as utf-8', (U, "            v = v.decode('iso-8859-1')\n", "            v = v.decode('utf-8')\n")),
    B('repeated dropped', (U, "        ret.append((k, v))\n", "        if (k, v) not in ret:\n            ret.append((k, v))\n")),
    B('given list returned', (U, "        ret.append((k, v))\n    return ret\n", "        ret.append((k, v))\n    return headers\n")),
    G('enumerate', (F, REPL, """        for index, (curr_name, curr_value) in enumerate(self.headers):
            if name_lower == curr_name.lower():
                self.headers[index] = (curr_name, value)
                return curr_value
""")),
    G('reversed range', (F, "range(len(self.headers) - 1, -1, -1):\n            if", "reversed(range(len(self.headers))):\n            if")),
    G('pop', (F, "                del self.headers[index]\n", "                self.headers.pop(index)\n")),
    G('unpacked lookup', (F, LOOK, """        for curr_name, curr_value in self.headers:
            if curr_name.lower() != name_lower:
                continue
            return curr_value
        return default_value
""")),
    G('replace via helper', (F, "        self.headers.append((name, value))\n        return None\n", "        self.add_header(name, value)\n        return None\n")),
    G('genexp', (F, LOOK, "        return next((v for n, v in self.headers if n.lower() == name_lower), default_value)\n")),
    G('comprehension', (U, "    for tup in h:\n        k, v = tup\n", "    for k, v in h:\n")),
    G('contains get', (F, "        return self[key] is not None\n", "        return self.get_header(key) is not None\n")),
    G('remove by rebuild', (F, REM, """        kept = [h for h in self.headers if h[0].lower() != name_lower]
        removed = len(kept) != len(self.headers)
        self.headers = kept
""")),
    G("enumerated", (F, '        for index in range(len(self.headers)):\n            curr_name, curr_value = self.headers[index]\n            if curr_name.lower() == name_lower:\n                self.headers[index] = (curr_name, value)\n                return curr_value\n\n        self.headers.append((name, value))\n        return None\n', '        for index, (curr_name, curr_value) in enumerate(self.headers):\n            if curr_name.lower() == name_lower:\n                self.headers[index] = (curr_name, value)\n                return curr_value\n\n        self.add_header(name, value)\n')),
    B("enumerated from one", (F, '        for index in range(len(self.headers)):\n            curr_name, curr_value = self.headers[index]\n            if curr_name.lower() == name_lower:\n                self.headers[index] = (curr_name, value)\n                return curr_value\n\n        self.headers.append((name, value))\n        return None\n', '        for index, (curr_name, curr_value) in enumerate(self.headers, 1):\n            if curr_name.lower() == name_lower:\n                self.headers[index] = (curr_name, value)\n                return curr_value\n\n        self.add_header(name, value)\n')),
    B("the one before", (F, '        for index in range(len(self.headers)):\n            curr_name, curr_value = self.headers[index]\n            if curr_name.lower() == name_lower:\n                self.headers[index] = (curr_name, value)\n                return curr_value\n\n        self.headers.append((name, value))\n        return None\n', '        for index, (curr_name, curr_value) in enumerate(self.headers):\n            if curr_name.lower() == name_lower:\n                self.headers[index - 1] = (curr_name, value)\n                return curr_value\n\n        self.add_header(name, value)\n')),
    B('request line cut at end', ('warcio/statusandheaders.py', "            protocol, statusline = statusline.split(' ', 1)", "            protocol, statusline = statusline.rsplit(' ', 1)")),
]
