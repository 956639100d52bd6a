from .util import B, G
F = 'warcio/capture_http.py'
FIN = "    finally:\n        RecordingHTTPConnection.local.recorder = prev_recorder\n        if out:\n            out.close()\n"
TRY = """    try:
        recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)
        RecordingHTTPConnection.local.recorder = recorder
        yield warc_writer

"""
FIXTURES = [
    B('no finally', (F, TRY + FIN, "    if True:\n" + TRY[9:] + "        RecordingHTTPConnection.local.recorder = prev_recorder\n        if out:\n            out.close()\n")),
    B('none', (F, "local.recorder = prev_recorder", "local.recorder = None")),
    B('not closed', (F, "        if out:\n            out.close()\n", "        pass\n")),
    B('closed on success', (F, TRY + FIN, TRY.rstrip() + "\n        if out:\n            out.close()\n" + FIN.replace("        if out:\n            out.close()\n", ""))),
    B('only exception', (F, "    finally:\n        RecordingHTTPConnection.local", "    except Exception:\n        RecordingHTTPConnection.local")),
    B('closes writer', (F, "        if out:\n            out.close()\n", "        if out:\n            out.close()\n        else:\n            warc_writer.out.close()\n")),
    B('overwrites', (F, "else 'xb'", "else 'wb'")),
    B('append inverse', (F, "'ab' if append else 'xb'", "'xb' if append else 'ab'")),
    B('always append', (F, "'ab' if append else 'xb'", "'ab'")),
    B('no filter', (F, "RequestRecorder(warc_writer, filter_func, record_ip=record_ip)", "RequestRecorder(warc_writer, record_ip=record_ip)")),
    B('no ip', (F, "RequestRecorder(warc_writer, filter_func, record_ip=record_ip)", "RequestRecorder(warc_writer, filter_func)")),
    B('gzip forced', (F, "        if 'gzip' not in kwargs:\n            kwargs['gzip'] = False\n", "        kwargs['gzip'] = False\n")),
    B('gzip default', (F, "        if 'gzip' not in kwargs:\n            kwargs['gzip'] = False\n", "")),
    B('file options', (F, "WARCWriter(out, **kwargs)", "WARCWriter(out)")),
    B('swallow', (F, "    finally:\n        RecordingHTTPConnection.local", "    except IOError:\n        pass\n    finally:\n        RecordingHTTPConnection.local")),
    B('yield recorder', (F, "        yield warc_writer\n", "        yield recorder\n")),
    B('keep recorder', (F, "    prev_recorder = getattr(RecordingHTTPConnection.local, 'recorder', None)\n\n    try:\n        recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)\n        RecordingHTTPConnection.local.recorder = recorder\n", "    try:\n        recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)\n        RecordingHTTPConnection.local.recorder = recorder\n        prev_recorder = recorder\n")),
    B('always records', (F, "        if self.recorder:\n            self.response_class", "        if True:\n            self.response_class")),
    B('no record', (F, "        if self.recorder:\n            self.response_class", "        if not self.recorder:\n            self.response_class")),
    B('no take', (F, "            self.recorder = self.local.recorder\n", "            self.recorder = None\n")),
    B('global', (F, "    local = threading.local()\n", "    class local(object):\n        pass\n")),
    G('set in body', (F, TRY, "    RecordingHTTPConnection.local.recorder = RequestRecorder(warc_writer, filter_func, record_ip)\n    try:\n        yield warc_writer\n")),
    G('is none', (F, "if warc_writer == None:", "if warc_writer is None:")),
    G('out not none', (F, "        if out:\n            out", "        if out is not None:\n            out")),
    G('getattr', (F, "        if hasattr(self.local, 'recorder'):\n            self.recorder = self.local.recorder\n        else:\n            self.recorder = None\n", "        self.recorder = getattr(self.local, 'recorder', None)\n")),
    G('setdefault', (F, "        if 'gzip' not in kwargs:\n            kwargs['gzip'] = False\n", "        kwargs.setdefault('gzip', False)\n")),
    B('own writer', (F, "        recorder = RequestRecorder(self.writer, self.filter_func,", "        recorder = RequestRecorder(BufferWARCWriter(), self.filter_func,")),
    G('conditional', (F, "            self.recorder = self.local.recorder\n        else:\n            self.recorder = None\n\n        # request, response and proxy state belong to one connection\n        if self.recorder:\n            self.recorder = self.recorder.for_connection()\n", "            r = self.local.recorder\n            self.recorder = r.for_connection() if r else None\n        else:\n            self.recorder = None\n")),
    G('elif', (F, "    if isinstance(warc_writer, str):", "    elif isinstance(warc_writer, str):")),
    G('restore first', (F, FIN, "    finally:\n        try:\n            if out:\n                out.close()\n        finally:\n            RecordingHTTPConnection.local.recorder = prev_recorder\n")),
    G('mode var', (F, "        out = open(warc_writer, 'ab' if append else 'xb')\n", "        mode = 'ab'\n        if not append:\n            mode = 'xb'\n        out = open(warc_writer, mode)\n")),
    B('close first', ('warcio/capture_http.py', '        RecordingHTTPConnection.local.recorder = prev_recorder\n        if out:\n            out.close()', '        if out:\n            out.close()\n        RecordingHTTPConnection.local.recorder = prev_recorder')),
    B('recorder taken away', ('warcio/capture_http.py', "        if hasattr(self.local, 'recorder'):\n            self.recorder = self.local.recorder", "        if getattr(self.local, 'recorder', None):\n            self.recorder = self.local.recorder\n            self.local.recorder = None")),
    B('version set', ('warcio/capture_http.py', "        if 'gzip' not in kwargs:\n            kwargs['gzip'] = False\n", "        kwargs['gzip'] = kwargs.get('gzip') or False\n        kwargs.setdefault('warc_version', 'WARC/1.1')\n")),
    G('closed asked', ('warcio/capture_http.py', '        if out:\n            out.close()', '        if out and not out.closed:\n            out.close()')),
]
