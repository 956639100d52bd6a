from .util import B, G
R = 'warcio/recordloader.py'
S = 'warcio/statusandheaders.py'
D = 'warcio/digestverifyingreader.py'
U = 'warcio/bufferedreaders.py'
A = 'warcio/archiveiterator.py'
I = 'warcio/indexer.py'
C = 'warcio/checker.py'
SIZE = """        if length is not None:
            # a declared length may be larger than any read can take
            length = min(length, sys.maxsize) if length >= 0 else None

        all_buffs = []
"""
FIXTURES = [
    B('uri not there', (R, "        if not uri or not uri.startswith(self.HTTP_SCHEMES):", "        if not uri.startswith(self.HTTP_SCHEMES):")),
    B('uri in arc', (R, "            if uri and uri.startswith('filedesc://'):", "            if uri.startswith('filedesc://'):")),
    B('no uri to correct', (R, "        if uri is not None and \" \" in uri:", "        if \" \" in uri:")),
    B('length not a number', (R, "        except (ValueError, TypeError):\n            is_err = True", "        except TypeError:\n            is_err = True")),
    B('length compared without being there', (R, "        if length is not None and length >= 0:\n            stream =", "        if length >= 0:\n            stream =")),
    B('payload length without length', (R, "            if length and http_headers is not None:", "            if http_headers is not None:")),
    B('line without colon', (S, "            if len(result) == 2:\n                name", "            if result:\n                name")),
    B('continuation of no header', (S, "                if value is not None:\n                    value += next_line", "                value += next_line")),
    B('status line of one word', (S, "        if len(protocol_status) > 1:\n", "        if protocol_status:\n")),
    B('utf-8 only', (S, "        except:\n            # if fails, default", "        except TypeError:\n            # if fails, default")),
    B('status code not a number', (S, "        except(ValueError, AssertionError):\n            self.statusline", "        except AssertionError:\n            self.statusline")),
    B('unknown algorithm', (D, "            except (ValueError, TypeError):\n                self.digest_checker.problem('unknown hash algorithm name in payload digest')",
                            "            except KeyError:\n                self.digest_checker.problem('unknown hash algorithm name in payload digest')")),
    B('algorithm with a NUL', (D, "            except (ValueError, TypeError):\n                self.digest_checker.problem('unknown hash algorithm name in block digest')",
                               "            except ValueError:\n                self.digest_checker.problem('unknown hash algorithm name in block digest')")),
    B('value that can not be decoded', (D, "    except (ValueError, TypeError):\n        return False", "    except TypeError:\n        return False")),
    B('huge length', (U, SIZE, "        if length is not None and length < 0:\n            length = None\n\n        all_buffs = []\n")),
    B('decompression error', (U, "            except Exception as e:\n", "            except ValueError as e:\n")),
    B('end of file escapes', (A, "            except EOFError:\n                empty_record = True", "            except StopIteration:\n                empty_record = True")),
    B('default length', (R, "        if length is not None and length >= 0:\n            headers", "        if length >= 0:\n            headers")),
    G('partition', (S, "            result = line.split(':', 1)\n            if len(result) == 2:\n                name = result[0].rstrip(' \\t')\n                value = result[1].lstrip()\n            else:\n                name = result[0]\n                value = None\n",
                    "            name, sep, value = line.partition(':')\n            if sep:\n                name = name.rstrip(' \\t')\n                value = value.lstrip()\n            else:\n                value = None\n")),
    G('clamped to what is there', (U, SIZE, "        if length is not None and length < 0:\n            length = None\n        if length is not None and length > sys.maxsize:\n            length = sys.maxsize\n\n        all_buffs = []\n")),
    G('or empty', (R, "        if not uri or not uri.startswith(self.HTTP_SCHEMES):", "        if not (uri or '').startswith(self.HTTP_SCHEMES):")),
    G('length by test', (R, "        try:\n            if length is not None:\n                length = int(length) - sub_len\n                if length < 0:\n                    is_err = True\n\n        except (ValueError, TypeError):\n            is_err = True\n",
                         "        if length is not None:\n            try:\n                length = int(length) - sub_len\n            except ValueError:\n                is_err = True\n            else:\n                is_err = length < 0\n")),
    G('status line partition', (S, "        code = self.statusline.split(' ', 1)[0]\n        return code", "        code, _, _ = self.statusline.partition(' ')\n        return code")),
    B('chunk size that is no number', (U, "except (ValueError, AssertionError):", "except AssertionError:")),
]
