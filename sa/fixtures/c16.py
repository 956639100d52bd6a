from .util import B, G
F = 'warcio/timeutils.py'
R = 'warcio/recordbuilder.py'
NOW = "datetime_to_iso_date(datetime.now(timezone.utc).replace(tzinfo=None), use_micros=use_micros)"
FIXTURES = [
    B('local', (R, "datetime.now(timezone.utc).replace(tzinfo=None)", "datetime.now()")),
    B('local offset', (R, "datetime.now(timezone.utc).replace(tzinfo=None)", "datetime.now(timezone.utc).astimezone()")),
    B('offset kept', (R, "datetime.now(timezone.utc).replace(tzinfo=None)", "datetime.now(timezone.utc)")),
    B('micros always', (R, "use_micros = (self.warc_version >= self.WARC_1_1)", "use_micros = True")),
    B('micros never', (R, "self._make_warc_date(use_micros=use_micros)", "self._make_warc_date()")),
    B('micros inverse', (R, "(self.warc_version >= self.WARC_1_1)", "(self.warc_version < self.WARC_1_1)")),
    B('micros from 1.0', (R, "(self.warc_version >= self.WARC_1_1)", "(self.warc_version >= self.WARC_1_0)")),
    B('micros after 1.1', (R, "(self.warc_version >= self.WARC_1_1)", "(self.warc_version > self.WARC_1_1)")),
    B('class version', (R, "(self.warc_version >= self.WARC_1_1)", "(self.WARC_VERSION >= self.WARC_1_1)")),
    B('micros cut', (R, ".replace(tzinfo=None)", ".replace(tzinfo=None, microsecond=0)")),
    B('iso space', (F, "ISO_DT = '%Y-%m-%dT%H:%M:%SZ'", "ISO_DT = '%Y-%m-%d %H:%M:%SZ'")),
    B('iso no Z', (F, "isoformat() + 'Z'", "isoformat()")),
    B('iso swapped', (F, "    if not use_micros:\n", "    if use_micros:\n")),
    B('sec local', (F, "datetime.fromtimestamp(secs, timezone.utc)", "datetime.fromtimestamp(secs)")),
    B('mktime', (F, "    return calendar.timegm(dt.utctimetuple())\n\n\ndef sec", "    return time.mktime(dt.timetuple())\n\n\ndef sec")),
    B('now local', (F, "datetime_to_timestamp(datetime.now(timezone.utc))", "datetime_to_timestamp(datetime.now())")),
    B('http local', (F, "                      usegmt=True)", "                      usegmt=False)")),
    B('new local helper', (F, "    return the_datetime.strftime(TIMESTAMP_14)\n", "    return the_datetime.strftime(TIMESTAMP_14) or time.ctime()\n")),
    G('utc variable', (R, "        return " + NOW, "        now = datetime.now(tz=timezone.utc)\n        return datetime_to_iso_date(now.replace(tzinfo=None), use_micros)")),
    G('branch', (R, "        use_micros = (self.warc_version >= self.WARC_1_1)\n        return self._make_warc_date(use_micros=use_micros)\n", "        if self.warc_version < self.WARC_1_1:\n            return self._make_warc_date()\n        return self._make_warc_date(use_micros=True)\n")),
    G('iso branch', (F, "    if not use_micros:\n        return the_datetime.strftime(ISO_DT)\n    else:\n        return the_datetime.isoformat() + 'Z'\n", "    if use_micros:\n        return the_datetime.isoformat() + 'Z'\n    return the_datetime.strftime('%Y-%m-%dT%H:%M:%SZ')\n")),
    B('micros only for 1.1', (R, "self.warc_version >= self.WARC_1_1", "self.warc_version == self.WARC_1_1")),
    G('not older', (R, "(self.warc_version >= self.WARC_1_1)", "not self.warc_version < self.WARC_1_1")),
]
