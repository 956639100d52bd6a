from .util import B, G
from .c02 import BL, DR, A
R = 'warcio/bufferedreaders.py'
TAIL = """        self.next_line, empty_size = self._consume_blanklines()

        self.offset = self.fh.tell() - self.reader.rem_length()
        #if self.offset < 0:
        #    raise Exception('Not Gzipped Properly')

        if self.next_line:
            self.offset -= len(self.next_line)

        length = self.offset - curr_offset

        if not self.reader.decompressor:
            length -= empty_size

        self.member_info = (curr_offset, length)
"""
FIXTURES = [
    B('no next line', (A, "            self.offset -= len(self.next_line)\n", "            pass\n")),
    B('stripped next line', (A, "            self.offset -= len(self.next_line)\n", "            self.offset -= len(self.next_line.rstrip())\n")),
    B('no rem', (A, TAIL, TAIL.replace(" - self.reader.rem_length()", ""))),
    B('reader tell', (A, TAIL, TAIL.replace("self.fh.tell() - self.reader.rem_length()", "self.reader.tell() - self.reader.rem_length()"))),
    B('blank always', (A, TAIL, TAIL.replace("if not self.reader.decompressor:\n            length", "if True:\n            length"))),
    B('blank never', (A, TAIL, TAIL.replace("            length -= empty_size\n", "            pass\n"))),
    B('blank inverted', (A, TAIL, TAIL.replace("if not self.reader", "if self.reader"))),
    B('count stripped', (A, BL, BL.replace("empty_size += len(line)", "empty_size += len(line) - len(stripped)"))),
    B('count lines', (A, BL, BL.replace("empty_size += len(line)", "empty_size += 2"))),
    B('count first only', (A, BL, BL.replace("                empty_size += len(line)\n", "                if first_line:\n                    empty_size += len(line)\n"))),
    B('overwrite', (A, BL, BL.replace("empty_size += len(line)", "empty_size = len(line)"))),
    B('count bad twice', (A, BL, BL.replace("                    self.err_count += 1", "                    empty_size += len(line)\n                    self.err_count += 1"))),
    B('new offset reported', (A, TAIL, TAIL.replace("(curr_offset, length)", "(self.offset, length)"))),
    B('swapped accessors', (A, "return self.member_info[0]", "return self.member_info[1]")),
    B('no drain accessor', (A, "        if not self.member_info:\n            self.read_to_end()\n\n        return self.member_info[1]", "        return self.member_info[1] if self.member_info else 0")),
    B('rem ignores unused', (R, "            rem += len(self.decompressor.unused_data)\n", "            rem = max(rem, 0)\n")),
    B('rem sign', (R, "rem = self.buff_size - self.buff.tell()", "rem = self.buff.tell()")),
    B('measure before blanks', (A, TAIL, TAIL.replace("        self.next_line, empty_size = self._consume_blanklines()\n\n        self.offset = self.fh.tell() - self.reader.rem_length()\n", "        self.offset = self.fh.tell() - self.reader.rem_length()\n        self.next_line, empty_size = self._consume_blanklines()\n"))),
    B('tell wrapper requested', (A, "        self.offset += len(result)", "        self.offset += size")),
    B('offset reset', (A, "        self.member_info = None\n\n        # Track", "        self.member_info = None\n        if self.known_format == 'arc':\n            self.offset = self.fh.tell()\n        # Track")),
    B('initial zero', (A, "            self.offset = self.fh.tell()\n        except:", "            self.fh.tell()\n            self.offset = 0\n        except:")),
    G('locals', (A, TAIL, """        nl, skipped = self._consume_blanklines()
        self.next_line = nl
        end = self.fh.tell() - self.reader.rem_length() - (len(nl) if nl else 0)
        self.offset = end
        if self.reader.decompressor:
            self.member_info = (curr_offset, end - curr_offset)
        else:
            self.member_info = (curr_offset, end - curr_offset - skipped)
""")),
    G('tail helper', (A, TAIL, """        self.next_line, empty_size = self._consume_blanklines()
        self.offset = self._raw_pos()
        length = self.offset - curr_offset - (0 if self.reader.decompressor else empty_size)
        self.member_info = (curr_offset, length)

    def _raw_pos(self):
        pos = self.fh.tell() - self.reader.rem_length()
        if self.next_line:
            pos -= len(self.next_line)
        return pos
""")),
    G('blank lines rewritten', (A, BL, """        line = self.reader.readline()
        while line:
            content = line.strip()
            if content:
                if not first_line:
                    return line, empty_size
                empty_size += len(line)
                where = self.fh.tell() - self.reader.rem_length() - empty_size
                sys.stderr.write(self.INC_RECORD.format(where, line))
                self.err_count += 1
            else:
                empty_size += len(line)
            first_line = False
            line = self.reader.readline()
        return None, empty_size
""")),
    G('rem rewritten', (R, "        rem = 0\n        if self.buff:\n            rem = self.buff_size - self.buff.tell()\n\n        if self.decompressor and self.decompressor.unused_data:\n            rem += len(self.decompressor.unused_data)\n        return rem\n",
      "        left = self.buff_size - self.buff.tell() if self.buff else 0\n        unused = self.decompressor.unused_data if self.decompressor else None\n        if unused:\n            left += len(unused)\n        return left\n")),
    G('tell wrapper', (A, "        result = self.fh.read(size)\n        self.offset += len(result)\n        return result", "        data = self.fh.read(size)\n        self.offset = self.offset + len(data)\n        return data")),
    B('tell errors', (A, "        except:\n            self.fh = Uns", "        except AttributeError:\n            self.fh = Uns")),
    G('tell errors named', (A, "        except:\n            self.fh = Uns", "        except (AttributeError, IOError):\n            self.fh = Uns")),
]
