from .util import B, G
F = 'warcio/capture_http.py'
RI = "        self.recorder.write_response(buff[:res] if res else b'')\n"
FIXTURES = [
    B('whole buffer', (F, RI, "        self.recorder.write_response(buff)\n")),
    B('readinto short', (F, RI, "        self.recorder.write_response(buff[:res - 1] if res else b'')\n")),
    B('readinto tail', (F, RI, "        self.recorder.write_response(buff[res:] if res else b'')\n")),
    B('readinto nothing', (F, RI, "")),
    B('readinto big only', (F, RI, "        if res and res == len(buff):\n            self.recorder.write_response(buff[:res])\n")),
    B('readline stripped', (F, "        self.recorder.write_response(line)\n        return line", "        self.recorder.write_response(line.rstrip())\n        return line")),
    B('readline twice', (F, "        self.recorder.write_response(line)\n        return line", "        self.recorder.write_response(line)\n        if maxlen < 0:\n            self.recorder.write_response(line)\n        return line")),
    B('readline maxlen', (F, "line = self.fp.readline(maxlen)", "line = self.fp.readline()")),
    B('read as request', (F, "        self.recorder.write_response(buff)\n        return buff", "        self.recorder.write_request(buff)\n        return buff")),
    B('read all', (F, "buff = self.fp.read(amt)", "buff = self.fp.read()")),
    B('read drops', (F, "        self.recorder.write_response(buff)\n        return buff", "        if amt:\n            self.recorder.write_response(buff)\n        return buff")),
    B('response without start', (F, "        if self.started_req:\n            self.response_out", "        if self.response_out:\n            self.response_out")),
    B('request to response', (F, "            self.request_out.write(buff)", "            self.response_out.write(buff)")),
    B('close no finally', (F, "        try:\n            self.recorder.done()\n        finally:\n            if self.fp:\n                self.fp.close()\n", "        self.recorder.done()\n        if self.fp:\n            self.fp.close()\n")),
    B('close swallow', (F, "            self.recorder.done()\n        finally:", "            self.recorder.done()\n        except Exception:\n            pass\n        finally:")),
    B('close no done', (F, "            self.recorder.done()\n", "            pass\n")),
    B('flush', (F, "        return self.fp.flush()", "        return None")),
    B('send recorded first', (F, "            orig_connection.send(self, buff)\n            self.recorder.write_request(buff)", "            self.recorder.write_request(buff)\n            orig_connection.send(self, buff)")),
    B('send not recorded', (F, "            self.recorder.write_request(buff)", "            if len(buff) > 1:\n                self.recorder.write_request(buff)")),
    B('send twice', (F, "                send_request(buff)\n", "                send_request(buff)\n                orig_connection.send(self, buff)\n")),
    B('body then data', (F, "                send_request(buff)\n        else:\n            send_request(data)", "                send_request(buff)\n        send_request(data)")),
    B('unrecorded twice', (F, "            orig_connection.send(self, data)\n            return\n", "            orig_connection.send(self, data)\n")),
    B('stream unrecorded', (F, "                send_request(buff)\n        else:", "                orig_connection.send(self, buff)\n        else:")),
    B('short block ends', (F, "                send_request(buff)\n        else:", "                send_request(buff)\n                if len(buff) < BUFF_SIZE:\n                    break\n        else:")),
    B('not wrapped', (F, "        self.fp = RecordingStream(self.fp, recorder)\n", "        if recorder.filter_func:\n            self.fp = RecordingStream(self.fp, recorder)\n")),
    B('args dropped', (F, "RecordingHTTPResponse(self.recorder, *args, **kwargs)", "RecordingHTTPResponse(self.recorder, *args)")),
    G('readinto if', (F, RI, "        if res:\n            self.recorder.write_response(buff[:res])\n")),
    G('memoryview', (F, RI, "        if res:\n            self.recorder.write_response(memoryview(buff)[:res])\n")),
    G('early return', (F, "        if self.started_req:\n            self.response_out.write(buff)", "        if not self.started_req:\n            return\n        self.response_out.write(buff)")),
    G('iter', (F, "            while True:\n                buff = data.read(BUFF_SIZE)\n                if not buff:\n                    break\n\n                send_request(buff)\n", "            for buff in iter(lambda: data.read(BUFF_SIZE), b''):\n                send_request(buff)\n")),
    G('prime', (F, "            while True:\n                buff = data.read(BUFF_SIZE)\n                if not buff:\n                    break\n\n                send_request(buff)\n", "            buff = data.read(BUFF_SIZE)\n            while buff:\n                send_request(buff)\n                buff = data.read(BUFF_SIZE)\n")),
    G('method', (F, "        def send_request(buff):\n            self.recorder.extract_url(buff, self.host, self.port, self.default_port)\n\n            orig_connection.send(self, buff)\n            self.recorder.write_request(buff)\n", "        send_request = self._send_request\n"), (F, "    def _tunnel(self", "    def _send_request(self, buff):\n        recorder = self.recorder\n        recorder.extract_url(buff, self.host, self.port, self.default_port)\n        orig_connection.send(self, buff)\n        recorder.write_request(buff)\n\n    def _tunnel(self")),
    G('helper', (F, "    def readline(self, maxlen=-1):\n        line = self.fp.readline(maxlen)\n        self.recorder.write_response(line)\n        return line", "    def _keep(self, data):\n        self.recorder.write_response(data)\n        return data\n\n    def readline(self, maxlen=-1):\n        return self._keep(self.fp.readline(maxlen))")),
    G('if else', (F, "        if not self.recorder:\n            orig_connection.send(self, data)\n            return\n", "        if self.recorder is None:\n            return orig_connection.send(self, data)\n")),
    B('address errors', ('warcio/capture_http.py', '        except Exception:  #pragma: no cover\n            return None', '        except AttributeError:  #pragma: no cover\n            return None')),
    G('address errors named', ('warcio/capture_http.py', '        except Exception:  #pragma: no cover\n            return None', '        except (OSError, AttributeError, IndexError):  #pragma: no cover\n            return None')),
]
