from .util import B, G
F = 'warcio/timeutils.py'
CL = """    def clamp(val, min_, max_):
        try:
            val = int(val)
            val = max(min_, min(val, max_))
            return val
        except:
            return max_
"""
EX = """    def extract(string, start, end, min_, max_):
        if len(string) >= end:
            return clamp(string[start:end], min_, max_)
        else:
            return max_
"""
FIXTURES = [
    B('narrow', (F, "        except:\n            return max_\n", "        except IndexError:\n            return max_\n")),
    B('no try', (F, CL, "    def clamp(val, min_, max_):\n        return max(min_, min(int(val), max_))\n")),
    B('no lower', (F, "            val = max(min_, min(val, max_))\n", "            val = min(val, max_)\n")),
    B('no upper', (F, "            val = max(min_, min(val, max_))\n", "            val = max(min_, val)\n")),
    B('out of range is min', (F, "            val = max(min_, min(val, max_))\n            return val\n", "            if val < min_ or val > max_:\n                return min_\n            return val\n")),
    B('invalid is min', (F, "        except:\n            return max_\n", "        except:\n            return min_\n")),
    B('short digits', (F, "        if len(string) >= end:\n", "        if len(string) > start:\n")),
    B('missing is min', (F, "        else:\n            return max_\n\n", "        else:\n            return min_\n\n")),
    B('hour 24', (F, "8, 10, 0, 23)", "8, 10, 0, 24)")),
    B('second 60', (F, "12, 14, 0, 59)", "12, 14, 0, 60)")),
    B('day 31', (F, "calendar.monthrange(year, month)[1]", "31")),
    B('day 28', (F, "calendar.monthrange(year, month)[1]", "28")),
    B('day of year 2000', (F, "calendar.monthrange(year, month)[1]", "calendar.monthrange(2000, month)[1]")),
    B('month 0', (F, "4, 6, 1, 12)", "4, 6, 0, 12)")),
    B('wrong place', (F, "10, 12, 0, 59)", "12, 14, 0, 59)")),
    B('year 0', (F, "0, 4, 1900, 2999)", "0, 4, 0, 2999)")),
    B('pad whole', (F, "string + pad_str[str_len:]", "string + pad_str")),
    B('pad left', (F, "string + pad_str[str_len:]", "pad_str[str_len:] + string")),
    B('pad short only', (F, "    if str_len < pad_len:\n", "    if str_len < pad_len - 1:\n")),
    B('always tz', (F, "    if tz_aware:\n        tzinfo = timezone.utc\n\n    return datetime(year", "    if not tz_aware:\n        tzinfo = timezone.utc\n\n    return datetime(year")),
    B('never tz', (F, "                             tzinfo=tzinfo)\n\n    #", "                             tzinfo=None)\n\n    #")),
    G('clamp returns', (F, "            val = max(min_, min(val, max_))\n            return val\n", "            if val < min_:\n                return min_\n            return min(val, max_)\n")),
    G('positional', (F, """    return datetime(year=year,
                             month=month,
                             day=day,
                             hour=hour,
                             minute=minute,
                             second=second,
                             tzinfo=tzinfo)
""", "    return datetime(year, month, day, hour, minute, second, tzinfo=tzinfo)\n")),
    G('tz expr', (F, "    tzinfo = None\n    if tz_aware:\n        tzinfo = timezone.utc\n\n    return datetime(year", "    tzinfo = timezone.utc if tz_aware else None\n\n    return datetime(year")),
    G('flat extract', (F, EX, "    def extract(string, start, end, min_, max_):\n        if len(string) < end:\n            return max_\n        return clamp(string[start:end], min_, max_)\n")),
    G('value error', (F, "        except:\n            return max_\n", "        except ValueError:\n            return max_\n")),
    G('pad expr', (F, "    str_len = len(string)\n    pad_len = len(pad_str)\n\n    if str_len < pad_len:\n        string = string + pad_str[str_len:]\n\n    return string\n", "    if len(string) < len(pad_str):\n        return string + pad_str[len(string):]\n    return string\n")),
    B('last field taken as missing', ('warcio/timeutils.py', '    def extract(string, start, end, min_, max_):\n        if len(string) >= end:', '    def extract(string, start, end, min_, max_):\n        if len(string) > end:')),
]
