from .util import B, G
F = 'warcio/capture_http.py'
CR = "        length = out.tell()\n        out.seek(0)\n"
WR = "            with self.lock:\n                self.writer.write_request_response_pair(request, response)\n"
FIN = "        finally:\n            self.request_out.close()\n            self.response_out.close()\n"
FIXTURES = [
    B('one buffer', (F, "        self.response_out = self._create_buffer()\n", "        self.response_out = self.request_out\n")),
    B('old buffer', (F, "        self.request_out = self._create_buffer()\n", "        if not self.request_out:\n            self.request_out = self._create_buffer()\n")),
    B('old url', (F, "        self.url = None\n        self.started_req = True\n", "        self.started_req = True\n")),
    B('old first line', (F, "        self.started_req = True\n        self.first_line_read = False\n", "        self.started_req = True\n")),
    B('not started', (F, "        self.started_req = True\n", "        self.started_req = bool(self.url)\n")),
    B('tunnel recorded', (F, "        self.connect_host = self.connect_port = None\n        self.started_req = False\n        self.first_line_read = False\n\n    def start(self", "        self.connect_host = self.connect_port = None\n        self.first_line_read = False\n\n    def start(self")),
    B('tunnel first line', (F, "        self.started_req = False\n        self.first_line_read = False\n\n    def start(self", "        self.started_req = False\n\n    def start(self")),
    B('tunnel per request', (F, "        self.started_req = True\n", "        self.started_req = True\n        self.connect_host = self.connect_port = None\n")),
    B('putrequest', (F, "            self.recorder.start()\n", "            pass\n")),
    B('putrequest after', (F, "        if self.recorder:\n            self.recorder.start()\n        return orig_connection.putrequest(self, *args, **kwargs)", "        res = orig_connection.putrequest(self, *args, **kwargs)\n        if self.recorder:\n            self.recorder.start()\n        return res")),
    B('done unstarted', (F, "        if not self.started_req:\n            return\n\n        try:", "        try:")),
    B('types swapped', (F, "self._create_record(self.request_out, 'request')", "self._create_record(self.request_out, 'response')"), (F, "self._create_record(self.response_out, 'response')", "self._create_record(self.response_out, 'request')")),
    B('not rewound', (F, CR, "        length = out.tell()\n")),
    B('length after', (F, CR, "        out.seek(0)\n        length = out.tell()\n")),
    B('no headers', (F, "                warc_headers_dict=self.warc_headers,\n", "")),
    B('filter swapped', (F, "request, response = self.filter_func(request, response, self)", "response, request = self.filter_func(request, response, self)")),
    B('filter and', (F, "if not request or not response:", "if not request and not response:")),
    B('filter raw', (F, "                request, response = self.filter_func(request, response, self)\n                if not request or not response:\n                    return\n", "                req, res = self.filter_func(request, response, self)\n                if not req or not res:\n                    return\n")),
    B('no lock', (F, WR, "            self.writer.write_request_response_pair(request, response)\n")),
    B('pair swapped', (F, "write_request_response_pair(request, response)", "write_request_response_pair(response, request)")),
    B('no finally', (F, FIN, "        except ValueError:\n            raise\n        self.request_out.close()\n        self.response_out.close()\n")),
    B('close request only', (F, FIN, "        finally:\n            self.request_out.close()\n")),
    B('closed early', (F, WR, "            self.request_out.close()\n" + WR)),
    B('first line again', (F, "        self.first_line_read = True\n        buff", "        buff")),
    B('no first check', (F, "        if self.first_line_read:\n            return\n\n        self", "        self")),
    B('connect url', (F, "        if verb == \"CONNECT\":\n", "        if verb == \"CONNECT\":\n            self.url = path\n")),
    B('connect forgotten', (F, "            self.connect_host = self._url_host(parts[0])\n", "            self.connect_host = self._url_host(host)\n")),
    B('tunnel host unused', (F, "        if self.connect_host:\n            host = self.connect_host\n", "")),
    B('tunnel port unused', (F, "        if self.connect_port:\n            port = self.connect_port\n", "")),
    B('scheme', (F, "if default_port == 443 else", "if port == 443 else")),
    B('port 80', (F, "        if port != default_port:", "        if port not in (80, 443):")),
    B('port always', (F, "        if port != default_port:\n            self.url +=", "        if port:\n            self.url +=")),
    B('no bracket', (F, "        host = self._url_host(host)\n", "")),
    B('no bracket tunnel', (F, "self._url_host(parts[0])", "parts[0]")),
    B('absolute https', (F, "path.startswith(('http:', 'https:'))", "path.startswith('http:')")),
    B('proxy leak', (F, "        scheme = 'https' if", "        self.warc_headers['WARC-Proxy-Host'] = host\n        scheme = 'https' if")),
    B('proxy http', (F, "\"https://{0}:{1}\".format(host, port)", "\"http://{0}:{1}\".format(host, port)")),
    B('shared recorder', (F, "            self.recorder = self.recorder.for_connection()\n", "            pass\n")),
    B('own lock', (F, "        recorder.lock = self.lock\n", "")),
    B('shared headers', (F, "        recorder.lock = self.lock\n", "        recorder.lock = self.lock\n        recorder.warc_headers = self.warc_headers\n")),
    B('filter lost', (F, "RequestRecorder(self.writer, self.filter_func,\n", "RequestRecorder(self.writer, None,\n")),
    B('ip always', (F, "        if self.record_ip and remote_ip:", "        if remote_ip:")),
    B('ip or', (F, "        if self.record_ip and remote_ip:", "        if self.record_ip or remote_ip:")),
    G('seek end', (F, CR, "        out.seek(0, 2)\n" + CR)),
    G('length in call', (F, "        length = out.tell()\n        out.seek(0)\n        return self.writer.create_warc_record(", "        size = out.tell()\n        out.seek(0)\n        length = size\n        return self.writer.create_warc_record(")),
    G('positional', (F, "                warc_headers_dict=self.warc_headers,\n                uri=self.url,\n                record_type=record_type,\n                payload=out,\n                length=length)", "                self.url, record_type, out, length,\n                warc_headers_dict=self.warc_headers)")),
    G('acquire', (F, WR, "            self.lock.acquire()\n            try:\n                self.writer.write_request_response_pair(request, response)\n            finally:\n                self.lock.release()\n")),
    G('close loop', (F, "            self.request_out.close()\n            self.response_out.close()\n", "            for out in (self.request_out, self.response_out):\n                out.close()\n")),
    G('filter none', (F, "if not request or not response:", "if request is None or response is None:")),
    G('filter result', (F, "                request, response = self.filter_func(request, response, self)\n", "                result = self.filter_func(request, response, self)\n                request, response = result\n")),
    G('url once', (F, "        self.url = scheme + '://' + host\n        if port != default_port:\n            self.url += ':' + str(port)\n\n        self.url += path\n", "        netloc = host\n        if port != default_port:\n            netloc = '{0}:{1}'.format(host, port)\n\n        self.url = '%s://%s%s' % (scheme, netloc, path)\n")),
    G('or host', (F, "        if self.connect_host:\n            host = self.connect_host\n\n        if self.connect_port:\n            port = self.connect_port\n", "        host = self.connect_host or host\n        port = self.connect_port or port\n")),
    G('unpack', (F, "        parts = line.split(' ', 2)\n        verb = parts[0]\n        path = parts[1]\n", "        verb, path = line.split(' ', 2)[:2]\n")),
    G('reset helper', (F, "        self.url = None\n        self.started_req = True\n        self.first_line_read = False\n", "        self.url = None\n        self._reset(True)\n"), (F, "    def _create_buffer(self", "    def _reset(self, started):\n        self.started_req = started\n        self.first_line_read = False\n\n    def _create_buffer(self")),
    G('inline buffers', (F, "        self.request_out = self._create_buffer()\n        self.response_out = self._create_buffer()\n", "        self.request_out = SpooledTemporaryFile(BUFF_SIZE)\n        self.response_out = SpooledTemporaryFile(BUFF_SIZE)\n")),
    B('first colon', ('warcio/capture_http.py', '            parts = path.rsplit(":", 1)\n            self.connect_host', '            parts = path.split(":", 1)\n            self.connect_host')),
    B('length of a block', ('warcio/capture_http.py', '        length = out.tell()\n        out.seek(0)', '        out.seek(0)\n        length = len(out.read(BUFF_SIZE))\n        out.seek(0)')),
    G('rpartition', ('warcio/capture_http.py', '            parts = path.rsplit(":", 1)\n            self.connect_host = self._url_host(parts[0])\n            self.connect_port = int(parts[1]) if len(parts) > 1 else default_port', '            thost, colon, tport = path.rpartition(":")\n            if not colon:\n                thost = tport\n            self.connect_host = self._url_host(thost)\n            self.connect_port = int(tport) if colon else default_port')),
    B('the request the filter gives is not looked at', ('warcio/capture_http.py', '                if not request or not response:\n                    return', '                if not response:\n                    return')),
    B('request line read as utf-8', ('warcio/capture_http.py', "        line = to_native_str(buff.readline(), 'latin-1')", "        line = to_native_str(buff.readline(), 'utf-8')")),
    G('request line decoded in place', ('warcio/capture_http.py', "to_native_str(buff.readline(), 'latin-1')", "buff.readline().decode('iso-8859-1')")),
    G('written by a helper given the pair', ('warcio/capture_http.py', "        try:\n            request = self._create_record(self.request_out, 'request')\n            response = self._create_record(self.response_out, 'response')\n\n            if self.filter_func:\n                request, response = self.filter_func(request, response, self)\n                if not request or not response:\n                    return\n\n            with self.lock:\n                self.writer.write_request_response_pair(request, response)\n        finally:\n            self.request_out.close()\n            self.response_out.close()\n", "        try:\n            pair = (self._create_record(self.request_out, 'request'),\n                    self._create_record(self.response_out, 'response'))\n\n            if self.filter_func:\n                pair = self.filter_func(pair[0], pair[1], self)\n\n            self._write_pair(*pair)\n        finally:\n            for out in (self.request_out, self.response_out):\n                out.close()\n\n    def _write_pair(self, request, response):\n        if request and response:\n            with self.lock:\n                self.writer.write_request_response_pair(request, response)\n")),
]
