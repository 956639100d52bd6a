"""Source of properties.jsonl: python3 tools/props.py rewrites properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, tech=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, tech=tech, note=note, na=na, state=state))


W = 'warcio/'
prop('C01', 'A limited reader never crosses its limit and accounts every byte',
     'A length-limited reader never asks its source for more than what remains of its limit and never for a negative or unlimited amount, whatever size the caller passes (none, negative, zero, huge), for read and readline alike. '
     'It hands over exactly the bytes the source returned, its remaining limit shrinks by exactly that many, and its position is the number of bytes handed over. '
     'Wrapping a stream limits it to the smaller of the limit it already has and the given length, when that is a number that is not negative. Every record whose length is known is read through a reader limited to exactly that length.',
     ['inputs', 'histories'], 'every sequence of read/readline calls with any sizes over any source, short reads included',
     'tests use a handful of sizes over in-memory sources; a wrong bound for one size or one short read pattern is not sampled',
     [W + 'limitreader.py', W + 'digestverifyingreader.py'], [('LimitReader.read', W + 'limitreader.py'), ('LimitReader.wrap_stream', W + 'limitreader.py')],
     'symbolic abstract interpretation: linear size bounds and exact accounting on every abstract path')
prop('C02', 'Iteration visits every record once, whatever the consumer reads',
     'Whatever part of a record the consumer has read when it asks for the next one, the iterator first reads the rest of that record and the blank lines after it, so that the next record is parsed exactly at its beginning; no record is skipped, repeated or parsed from inside another. '
     'Between records only blank lines are dropped, plus at most one non-blank line per record, which is reported as an error; iteration ends only at the end of the input. '
     'In a compressed file the next gzip member is taken up only after the current record was drained, and a second record in the same member is reported as an error.',
     ['inputs', 'histories'], 'all record sequences, all amounts of each record consumed by the caller, compressed or not',
     'tests consume records fully or not at all over a few sample files',
     [W + 'archiveiterator.py'], [('ArchiveIterator._iterate_records', W + 'archiveiterator.py'), ('ArchiveIterator.read_to_end', W + 'archiveiterator.py')],
     'typestate automaton over the abstract paths of the iterator generator')
prop('C03', 'Reported offset and length delimit the record in the raw file',
     'The offset reported for a record is the position in the raw input where it begins, and the length reaches to the beginning of the next record (for uncompressed input, without the blank lines that follow the record), no matter how much of the record the caller has read or how much input is buffered. '
     'The first offset is the position the input had when iteration was set up; for input that cannot tell its position, the bytes delivered by it are counted.',
     ['inputs', 'histories'], 'all inputs, buffer sizes, and orders of offset/length queries and reads',
     'tests compare a few sample files read with the default buffer size',
     [W + 'archiveiterator.py', W + 'bufferedreaders.py'], [('ArchiveIterator.read_to_end', W + 'archiveiterator.py'), ('BufferedReader.rem_length', W + 'bufferedreaders.py')],
     'symbolic linear forms of offset and length on every abstract path, with induction over the blank-line loop')

prop('C04', 'A record carries what its header block declares',
     "The record returned for a header block has the type, length, content type and headers that block declares: length is the declared length (for ARC less the header lines it includes), unknown when none is declared, and 0 when it is negative or not a number. "
     "A WARC-Target-URI enclosed in <> or holding spaces is corrected, in the header too. Http headers are parsed exactly for non-empty response, request and revisit records with an http(s) uri, requests as requests, and only a revisit may lack them; payload_length is the length less the bytes they took. "
     "WARC is tried first, then ARC; known_format restricts the formats accepted; a header block that is neither is reported as ArchiveLoadFailed. The options of the iterator (verify_http, arc2warc, no_record_parse, ensure_http_headers) reach the loader.",
     ['inputs'], 'all header blocks, well-formed or not, under all options',
     'tests load a few dozen sample records; a combination of type, length, uri and option is not sampled',
     [W + 'recordloader.py', W + 'archiveiterator.py'], [('ArcWarcRecordLoader.parse_record_stream', W + 'recordloader.py'), ('ArcWarcRecordLoader.load_http_headers', W + 'recordloader.py')],
     'obligations relating every field of the record to the parsed header on every abstract path of the loader')
prop('C05', 'Declared digests are computed over exactly the right bytes',
     'When digest checking is on, the block digest of a record is computed over exactly the bytes of its block, and the payload digest over exactly the bytes after the http headers, each byte once and in order, whatever mix of read and readline sizes delivers them. '
     'Each is computed with the algorithm its own header declares and compared once, when the last byte of the block has been delivered (at once when the block or payload is empty), never before. '
     'Revisit records are not checked, segments have no payload digest; a digest with an unknown algorithm is reported.',
     ['inputs', 'histories'], 'all records and all sequences of reads over them',
     'tests read a few records with a few sizes; one combination of header, block type and read pattern with a wrong feed is not sampled',
     [W + 'digestverifyingreader.py', W + 'recordloader.py'], [('DigestVerifyingReader', W + 'digestverifyingreader.py'), ('ArcWarcRecordLoader.parse_record_stream', W + 'recordloader.py')],
     'feed obligations (which bytes, which digester, when compared) on every abstract path of the verifying reader and the loader')
prop('C06', 'The digest verdict is never better than what was compared',
     'The verdict of a record becomes True only after a declared digest equalled the computed one, and once False it stays False. Every compared digest that does not match, or cannot be parsed, is reported: the description is kept and the verdict becomes False, also when the option asks for an exception (raise) or a log line (log). '
     'A matching digest is recorded. A declared value may be in base16, base32, base64 or url-safe base64.',
     ['inputs', 'histories'], 'all declared/computed digest pairs, orders of block and payload comparison, and checking modes',
     'tests hold a few good and bad digests; an order of outcomes that turns a failure into a pass is not sampled',
     [W + 'digestverifyingreader.py'], [('DigestChecker', W + 'digestverifyingreader.py'), ('_compare_digest', W + 'digestverifyingreader.py')],
     'verdict automaton over the abstract paths: every comparison outcome against every verdict write')

prop('C07', 'De-chunking delivers exactly the chunk data',
     'A chunked body is delivered as exactly the data of its chunks, each byte once and in order, whatever the chunk boundaries and the sizes read: a chunk size is the hexadecimal number (not negative, at least up to 2 GiB) before any ";", exactly that many bytes and one line end are consumed, and nothing is delivered after the last chunk. '
     'A chunk that is cut off is delivered as far as it goes. Data that is not chunked, or stops being so, is delivered unchanged from the offending line on; in strict mode (raise_exceptions) it is a ChunkedDataException instead, and no other error arises.',
     ['inputs', 'histories'], 'all bodies, chunked or not or partly, and all sequences of reads',
     'tests hold a dozen bodies; a particular break between chunk header, data and buffer is not sampled',
     [W + 'bufferedreaders.py'], [('ChunkedDataReader', W + 'bufferedreaders.py')],
     'obligations on every abstract path of the chunk reading loop: bytes consumed against bytes delivered')
prop('C08', 'A buffered reader delivers the decoded data once, in order',
     'read and readline of a buffered reader return exactly the next bytes of the decoded input, none lost, repeated or reordered, never more than the size asked for and less only at the end of the input or member (or line), whatever the block size and the way input and decompressed output arrive. '
     'Every block of raw input is decompressed, or kept unchanged when there is no decompressor or the data turns out not to be compressed. The data after one gzip member starts the next with a fresh decompressor; gzip, zlib and raw deflate are decoded each with its own window bits.',
     ['inputs', 'histories'], 'all inputs, block sizes, compression states and sequences of reads',
     'tests use small inputs and a few block sizes; a buffer boundary in a particular place is not sampled',
     [W + 'bufferedreaders.py'], [('BufferedReader', W + 'bufferedreaders.py')],
     'conservation proof by induction over the read loops, and refill obligations, on every abstract path')
prop('C09', 'The content stream undoes exactly the declared encodings',
     'content_stream() delivers the block itself when the record has no http headers or declares no encoding; it de-chunks exactly when Transfer-Encoding is chunked and decompresses exactly when Content-Encoding is one of the supported ones, in any letter case, and both when both are declared, over the raw stream of the record, and leaves the record as it is. '
     'An unsupported Content-Encoding is left undecoded rather than being an error, and deflate content without the zlib header is decoded as raw deflate, from its first byte.',
     ['inputs'], 'all combinations of http headers and encodings',
     'tests hold a few encodings in the usual spelling; other spellings and combinations are not sampled',
     [W + 'recordloader.py', W + 'bufferedreaders.py'], [('ArcWarcRecord.content_stream', W + 'recordloader.py')],
     'decision table of every abstract path of content_stream against the header conditions of the path')

prop('C10', 'A written record has the form of a record, in a gzip member of its own',
     'write_record writes the record header in UTF-8, then the http header block if the record has one, then every byte of the rest of the block once, in order and to its end, then exactly two line ends, and flushes the output; a revisit record with http headers has no payload after them. '
     'With gzip all of that, and nothing else, goes through one complete gzip member of its own per record, which is finished before write_record returns; without gzip nothing is compressed.',
     ['inputs', 'histories'], 'all records (with and without http headers, of known and unknown length, all types) and both kinds of output',
     'tests write a few dozen records; a record type, stream and compression combination is not sampled',
     [W + 'warcwriter.py', W + 'recordbuilder.py'], [('BaseWARCWriter._write_warc_record', W + 'warcwriter.py'), ('GzippingWrapper', W + 'warcwriter.py')],
     'write-order automaton over every abstract path of write_record and of the gzip wrapper')
prop('C11', 'The Content-Length written is the length of the block written',
     'write_record sets Content-Length, replacing any value the record had, to the sum of the lengths of exactly the parts of the block it then writes: the encoded http header block when there is one and the payload when it is written (a block of unknown length is measured), and leaves that number in record.length. '
     'The http header block is encoded anew in the same call, with the header filter of the writer, before digests and length are computed from it.',
     ['inputs'], 'all records with payload length set by this library, all header filters',
     'tests hold a few records; a combination of type, headers and length is not sampled',
     [W + 'warcwriter.py'], [('BaseWARCWriter._write_warc_record', W + 'warcwriter.py')],
     'linear length expression against the parts written, on every abstract path of write_record')
prop('C12', 'Digest headers a writer adds cover exactly what it writes',
     'A written record has a WARC-Block-Digest and, unless it is a warcinfo or revisit record, a WARC-Payload-Digest; a digest header that is there already is kept, except that both (the payload digest of a revisit record aside) are recomputed for a record of unknown length. '
     'The digest added is "sha1:" and the base32 of the hash over every byte, each once and to the end, of the block as it is written (http header block, then payload; http headers only for a revisit record that has them) and of the payload respectively. '
     'Afterwards the stream is back at the position it had, or the record reads from a buffer holding all of it when the stream cannot seek or the length is unknown; that buffer is closed and the record gets its own stream back after the block is written, also when writing it fails.',
     ['inputs', 'fault_sequences'], 'all records, streams and header states; failing reads and writes',
     'tests hold a few records; the position of the stream, missing seek, empty blocks and failures are not sampled in combination',
     [W + 'recordbuilder.py', W + 'warcwriter.py', W + 'utils.py'], [('RecordBuilder.ensure_digest', W + 'recordbuilder.py'), ('Digester', W + 'utils.py')],
     'digest-feeding automaton and header decision table over every abstract path of ensure_digest and write_record')

prop('C13', 'Created records carry the mandatory headers and the fields asked for',
     'create_warc_record returns a record of the type, payload, content type and http headers asked for, in the WARC version of the builder (WARC/1.0 unless another is asked for). Without warc_headers its headers are those of warc_headers_dict plus WARC-Type set to the type, WARC-Target-URI set to the uri if there is one, and a new unique WARC-Record-ID and current WARC-Date unless the dict has them; warc_headers given are used as they are. '
     'Content-Type is the one given, else the one in the headers, else the one of the record type. http headers are read from the payload exactly when none are given, and are then not counted in its length; an empty payload has length 0. A warcinfo record holds every field with a value as a line "name: value" in UTF-8.',
     ['inputs'], 'all argument combinations of create_warc_record and create_warcinfo_record',
     'tests create a few dozen records; combinations of the arguments are not sampled',
     [W + 'recordbuilder.py', W + 'statusandheaders.py'], [('RecordBuilder.create_warc_record', W + 'recordbuilder.py'), ('RecordBuilder._init_warc_headers', W + 'recordbuilder.py'), ('RecordBuilder.create_warcinfo_record', W + 'recordbuilder.py')],
     'decision table of every abstract path of the record builder: headers and fields against the argument conditions of the path')

prop('C14', 'A request is written after its response and linked to it',
     "write_request_response_pair writes the response and then the request, each once. Before the request is written its WARC-Target-URI and WARC-Date are replaced by the response's and, when the response has a WARC-Record-ID, a WARC-Concurrent-To with that id is added; nothing else of the request's headers and nothing of the response's changes.",
     ['inputs'], 'all pairs of records, with and without the headers concerned',
     'tests write a few pairs; presence and absence of each header on either side is not sampled',
     [W + 'warcwriter.py'], [('BaseWARCWriter.write_request_response_pair', W + 'warcwriter.py')],
     'write order and header decision table on every abstract path of write_request_response_pair')
prop('C15', 'A revisit record refers to what it duplicates',
     'create_revisit_record refuses an empty digest. Otherwise it returns a revisit record of the uri with the http and WARC headers given and no payload, with WARC-Refers-To-Target-URI, WARC-Refers-To-Date and WARC-Payload-Digest as given, each once, and the WARC-Profile of the identical-payload-digest kind for the WARC version of the builder (1.1 or 1.0).',
     ['inputs'], 'all argument combinations and both WARC versions',
     'tests create a handful of revisit records; combinations of arguments and version are not sampled',
     [W + 'recordbuilder.py'], [('RecordBuilder.create_revisit_record', W + 'recordbuilder.py')],
     'header decision table on every abstract path of create_revisit_record')
prop('C16', 'Dates are in UTC, in the precision of the WARC version',
     'The WARC-Date of a created record is the current time in UTC as YYYY-MM-DDTHH:MM:SSZ, with microseconds exactly when the WARC version of the builder is 1.1 or later, without any other offset; the machine\'s local time zone has no influence on it nor on any conversion between seconds, timestamps, ISO and http dates.',
     ['configurations', 'inputs'], 'all local time zones, times and WARC versions',
     'tests run in one time zone at one time',
     [W + 'timeutils.py', W + 'recordbuilder.py'], [('RecordBuilder.curr_warc_date', W + 'recordbuilder.py'), ('datetime_to_iso_date', W + 'timeutils.py'), ('sec_to_timestamp', W + 'timeutils.py')],
     'provenance of every date value on the abstract paths, and a resolved-call rule against local-time functions')
prop('C17', 'Every timestamp string gives a valid date',
     'timestamp_to_datetime accepts any string and never raises: the timestamp is padded to a month, each field is read from its own digits, a field that is missing, cut short or no number takes its latest value (2999, 12, last day of the month, 23, 59, 59), one out of range the nearest value in range, and the day is within that year\'s month. The zone is UTC exactly when tz_aware.',
     ['inputs'], 'all strings',
     'doctests hold twenty-five strings',
     [W + 'timeutils.py'], [('timestamp_to_datetime', W + 'timeutils.py'), ('pad_timestamp', W + 'timeutils.py')],
     'interval analysis of every field over the abstract paths, with the exceptions of the conversions')
prop('C18', 'capture_http records in its own scope only',
     'capture_http runs its body once with the writer it records to (filter_func and record_ip handed to the recorder): the one given, else one writing to the file named, opened to append or, without append, exclusively, else one in memory, uncompressed unless gzip is given. The recorder is set for the current thread only before the body; on every way out of the body, exceptions included, the one in place before is restored, an exception comes out, a file opened here is closed and nothing handed in is closed. A connection takes the recorder of its thread when it is made, and without one behaves as the original.',
     ['histories', 'fault_sequences'], 'all option combinations, nestings and exceptions thrown by the body or while the recorder is set up',
     'tests leave the context normally; exceptions in the body, nested and concurrent captures are not sampled',
     [W + 'capture_http.py'], [('capture_http', W + 'capture_http.py'), ('RecordingHTTPConnection.__init__', W + 'capture_http.py')],
     'typestate of the thread-local recorder and of the opened file over every abstract path of the generator, with exceptions injected at the yield')
prop('C19', 'Recording is transparent and exact',
     'On a recorded connection every block sent goes out once through the original send and, once a request has begun, is then appended once to the request of the record; a body given as a stream is sent in blocks to its end. A read, readinto or readline of a response is forwarded once with its arguments and returns its result, and exactly the bytes delivered are appended once to the response of the record (nothing before a request begins). flush is forwarded; close ends the record once and closes the stream on every way out. Without a recorder nothing but the original happens.',
     ['inputs', 'histories'], 'all data, read sizes, short reads and interleavings of calls on one connection',
     'tests exchange small bodies that arrive whole; short reads, stream bodies and failures to record are not sampled',
     [W + 'capture_http.py'], [('RecordingStream', W + 'capture_http.py'), ('RecordingHTTPConnection.send', W + 'capture_http.py'), ('RequestRecorder.write_response', W + 'capture_http.py')],
     'forwarding and copying obligations (once each, same value) on every abstract path and loop iteration of the recording wrappers')
prop('C20', 'One captured request gives one request/response pair',
     'A request on a recorded connection begins with new, separate buffers and no URL; its URL is taken from the first line sent only: an absolute http(s) URL as it is, otherwise scheme://host[:port]path with the host and port of the tunnel if there is one, https exactly when the default port is 443, the port only when it is not the default, an IPv6 address in brackets. A CONNECT is remembered (host, port, WARC-Proxy-Host), not recorded; an absolute URL sets WARC-Proxy-Host. At the end both records are made of all that was recorded with that URL and the headers collected, the filter is asked once with (request, response, recorder), and both are written once as a pair under the lock of the capture, or neither if the filter drops one; the buffers are closed on every way out. Request state belongs to one connection; only writer, filter, record_ip and lock are shared. WARC-IP-Address is noted exactly when record_ip is set and the address known.',
     ['histories', 'inputs'], 'all sequences of requests, tunnels and proxies on any number of connections of a capture',
     'tests make one request at a time to one host; interleaved connections, IPv6 and mixes of proxied and direct requests are not sampled',
     [W + 'capture_http.py'], [('RequestRecorder', W + 'capture_http.py'), ('RecordingHTTPConnection', W + 'capture_http.py')],
     'typestate and decision tables over every abstract path of the recorder, exceptions included')


prop('C21', 'The exit status of warcio check reports every digest that does not match',
     'warcio check iterates every record of every input with digest checking on, reads the content of each to its end before it asks for the verdict, and ends with a non-zero status exactly if some record has a digest that does not match (or, not being a revisit, has a digest but is cut short by the end of the file so that it cannot be checked), or some file could not be parsed (ArchiveLoadFailed): such a file does not keep the remaining inputs from being checked, and no later record or file turns the status back into success.',
     ['inputs', 'histories'],
     'every iteration of the record loop and of the input loop is analysed, for every verdict the digest checker can give (True, False, None), with the verdict dated: reading content changes it; stores to the status must be truthy and be there exactly on the failing paths',
     'the tests check the output of a handful of files, none with a failure followed by a success, several inputs with the failure in an early one, or a truncated record',
     [W + 'checker.py', W + 'cli.py'],
     [('Checker.process_all: the loop over the inputs, ArchiveLoadFailed', W + 'checker.py'), ('Checker.process_one: verdict per record', W + 'checker.py'), ('checker: sys.exit', W + 'cli.py')],
     'abstract interpretation: verdict case analysis and monotone status on every loop iteration')


prop('C22', 'warcio recompress copies every record or fails',
     'recompress writes every record that iterating the input gives (ARC records converted, malformed http headers tolerated) once, in order and unchanged to the output, each as its own gzip member, and reports how many. If that first pass fails with any exception, no record is skipped over: the whole input is decompressed anew from its beginning, all gzip members, into a temporary file, and the copy starts again from the beginning of that file and of the output, so nothing of the failed pass remains. It ends normally only if the last pass came to the end of its input; if that fails too the process ends with a non-zero status.',
     ['inputs', 'fault_sequences'],
     'every call on the way is given every outcome including an exception at every point; on each of the resulting paths the order of open, seek, copy, iterate and write is checked',
     'the tests recompress a few broken files; a failure at another point, or one in the second pass, is not sampled',
     [W + 'recompressor.py', W + 'cli.py'],
     [('Recompressor.recompress: first pass, second pass, status', W + 'recompressor.py'), ('load_and_write: copy loop', W + 'recompressor.py'), ('decompress_and_recompress', W + 'recompressor.py')],
     'abstract interpretation with an exception fork at every call: typestate of the two passes')


prop('C23', 'warcio extract writes the record at the offset, whole and nothing else',
     'extract seeks to the offset given before anything is read, takes the first record from there as it is stored (no ARC conversion, http headers parsed), and writes to stdout: with --payload the decoded content; otherwise its record headers, its http headers if it has any and, without --headers, its stored content. Every block that is read is written once, in order, before the next one is read, until an empty read; nothing else is written.',
     ['inputs'],
     'all combinations of the two flags and of records with and without http headers, and every iteration of the copy loops, are followed: a monitor tracks the block read but not yet written',
     'the tests extract a few small records whose content fits one block',
     [W + 'extractor.py', W + 'cli.py'],
     [('Extractor.extract', W + 'extractor.py'), ('extractor: flags', W + 'cli.py')],
     'abstract interpretation: read/write conservation monitor over all loop iterations')


prop('C24', 'warcio index writes one line per record with each field from its source',
     'index opens and indexes every input once, into one output, and writes exactly one line of json for every record (none skipped, ARC records with WARC headers, http headers parsed whenever a requested field needs them and verified only if the indexer was told to). Every requested field is looked up and entered in the order requested: offset and length are what the iterator reports for the record, filename the base name of the input, http:status the status code of a response or revisit with http headers, http:NAME the http header NAME, anything else the record header of that name; a value other than None, also an empty one, is entered under its field, None is left out.',
     ['inputs', 'configurations'],
     'the record loop and the field loop are followed for every outcome of a lookup; the lookup itself for each kind of field name and record',
     'the tests index a few example files with a few lists of fields',
     [W + 'indexer.py'],
     [('Indexer.process_all', W + 'indexer.py'), ('process_one, process_index_entry: a line per record', W + 'indexer.py'), ('get_field: sources', W + 'indexer.py')],
     'abstract interpretation: per-iteration obligations of the record and field loops')

prop('C25', 'The header map finds, replaces and removes headers by name, ignoring case',
     'StatusAndHeaders behaves as an ordered, case-insensitive list of headers: get_header goes over the whole list and returns the value of the first header whose name matches, the default if none does, and changes nothing; replace_header sets the first match in place (keeping its name and returning the old value) and otherwise appends exactly one header; remove_header removes every match and nothing else and tells whether it did; add_header appends. The mapping operations ([], in, get, []=, del) are these operations, and membership means a lookup that is not None, so a header with an empty value is there. A new object keeps its own list of the given pairs, in order, bytes read as latin-1.',
     ['inputs', 'histories'],
     'any list of headers, with repeated names, in any case, empty values: every iteration of every scan is followed for a matching and a differing name',
     'the tests look up, replace and remove a few names in short lists',
     [W + 'statusandheaders.py', W + 'utils.py'],
     [('StatusAndHeaders.get_header, replace_header, remove_header, add_header', W + 'statusandheaders.py'), ('headers_to_str_headers', W + 'utils.py')],
     'abstract interpretation: inductive obligations on the iterations of each scan')

prop('C26', 'The written form of a header block loses nothing, adds nothing and is always valid',
     'to_str is the protocol, a space and the status line (whichever are there) and CRLF, then for every header in its order exactly "name: value" CRLF, also when the value is empty; only what the filter rejects is left out, and what it returns is what is written. to_bytes is that text in the encoding asked for (strictly, nothing dropped) and an empty line. to_ascii_bytes always gives ascii and never fails on text that is not: the headers are then percent-encoded in place, names kept, and written again with the same filter, and whatever else is not ascii is encoded too.',
     ['inputs'],
     'any status line, headers and filter, ascii or not: the text built so far is proven to grow by exactly one line per header for every iteration',
     'the tests compare the written form of a handful of header blocks',
     [W + 'statusandheaders.py'],
     [('StatusAndHeaders.to_str, to_bytes, to_ascii_bytes, percent_encode_non_ascii_headers', W + 'statusandheaders.py')],
     'abstract interpretation: loop-carried text grows by one line per header; exceptional paths of the encodings')

prop('C27', 'The header parser reads exactly the header block and keeps every header of it',
     'StatusAndHeadersParser.parse reads lines up to and including the first empty one (or the end of the data) and never a line after it, so the payload starts right behind the headers. Every line with a colon becomes exactly one header, in order: the name is what is before the first colon, the value what follows it, empty values and repeated headers included; lines that start with a space or a tab are added, separated by white space, to the value of the header before; other lines are no headers. EOFError is raised exactly when nothing is left; an empty first line is an empty block; when verifying, a status line is refused exactly when it starts with none of the prefixes (ignoring its case), the protocol is the prefix matched and the remainder is kept as written. A line is read as utf-8 if it is, otherwise as latin-1, which never fails.',
     ['inputs'],
     'any bytes: which value is the last line read is an invariant of both nested loops, and every read and every exit is checked against it',
     'the tests parse a few header blocks',
     [W + 'statusandheaders.py'],
     [('StatusAndHeadersParser.parse', W + 'statusandheaders.py'), ('split_prefix, decode_header', W + 'statusandheaders.py')],
     'abstract interpretation: inferred loop invariants (last line read, value so far) over nested loops')

prop('C28', 'ARC header lines become the right headers, and the record content starts and ends where it does',
     'An ARC header line is separated from its end into exactly its five fields (a url may have spaces; another number of fields is refused) and each field becomes one header under its own name with its own value. After a file header line, and only then, exactly the two lines that belong to it are read, and their length in bytes is what the content of that record is shorter by. Read as WARC, the date becomes an ISO date, the file header a warcinfo record named by its file name, every other record a response with http content, each with a record id of its own. EOFError means exactly that nothing was left.',
     ['inputs'],
     'any header line, with or without the file header, for both header forms: each field name is followed through every iteration of the mapping',
     'the tests read three example ARC files',
     [W + 'recordloader.py'],
     [('ARCHeadersParser.parse', W + 'recordloader.py'), ('ARC2WARCHeadersParser._get_protocol_and_headers', W + 'recordloader.py')],
     'abstract interpretation: case analysis per field name on the iterations of the mapping; byte counts as linear terms')


prop('C29', 'Malformed input raises only the documented exceptions',
     'Whatever the bytes of an archive are, iterating it, reading its records and looking at their headers raises no other exception than ArchiveLoadFailed and StatusAndHeadersParserException (EOFError where one record is parsed and nothing is left); damaged compressed data, digests and chunks raise nothing at all unless asked for. No value that a record may lack (type, url, length, http headers, a digest) is used as if it were there, no declared number is trusted to be a number or to be of any size, no line to have the expected pieces, no bytes to be text. Indexing, checking and extracting pass on just these exceptions.',
     ['inputs'],
     'any bytes: each use of a value that can be absent, each conversion, each index into pieces and each raise is followed through the handlers around it, on every path of each entry point',
     'the tests feed a few damaged files; which combination of missing header and record type crashes can not be sampled',
     [W + 'recordloader.py', W + 'statusandheaders.py', W + 'archiveiterator.py', W + 'digestverifyingreader.py', W + 'bufferedreaders.py', W + 'limitreader.py', W + 'indexer.py', W + 'checker.py', W + 'extractor.py', W + 'recordbuilder.py'],
     [('ArcWarcRecordLoader.parse_record_stream', W + 'recordloader.py'), ('StatusAndHeadersParser.parse', W + 'statusandheaders.py'),
      ('DigestVerifyingReader', W + 'digestverifyingreader.py'), ('ArchiveIterator._iterate_records', W + 'archiveiterator.py'), ('BufferedReader', W + 'bufferedreaders.py')],
     'exception-flow analysis with nullness, conversion and sequence-length hazards over abstract paths; upper bounds of sizes by loop induction')


prop('C30', 'Files are opened as asked, and closed exactly if warcio opened them',
     'fsspec_open and open_or_default give, for a name, the file of that name in the mode and with the options asked for; for no name, an empty name and "-" (text or bytes) the default; for anything else the handle itself. Exactly one handle is given. A file that was opened is closed on every way out of the body, errors included, and not before; handles passed in, defaults and the standard streams are never closed. index, check, extract and recompress read their inputs as bytes, start their output anew, use the standard streams by default, and leave nothing open on any way out, temporary copies included. A capture into a named file appends to it or, if not asked to append, creates it and fails if it is there: an archive is never overwritten.',
     ['inputs', 'fault_sequences'],
     'each call after a file was opened may fail: the typestate of every handle is followed along every normal and exceptional path',
     'the tests open a few files successfully; a handle left open after an error is not noticed by any',
     [W + 'utils.py', W + 'indexer.py', W + 'checker.py', W + 'extractor.py', W + 'recompressor.py', W + 'capture_http.py'],
     [('fsspec_open, open_or_default, open', W + 'utils.py'), ('Indexer.process_all', W + 'indexer.py'), ('Recompressor', W + 'recompressor.py'), ('capture_http', W + 'capture_http.py')],
     'typestate analysis of file handles over all normal and exceptional abstract paths')


prop('C31', 'Archives are streamed: read forwards, in bounded blocks, nothing kept',
     'Reading an archive only ever reads its source forwards: no reader, parser, loader or iterator seeks, rewrites or closes the source, so pipes and sockets can be read. A source that cannot tell its position is accepted, and its position counted from zero by exactly the bytes it delivers. The source is read in blocks, of the block size given to the iterator; what remains of a record is passed over in blocks, never read as a whole. '
     'Checking, extracting, indexing, recompressing and writing a record and computing its digests read its content in blocks of bounded size and pass each piece on; none gathers the pieces of a record in memory, and the iterator, loader and parsers hold nothing of the records passed. What must be kept aside (a record of unknown length, a captured exchange, a decompressed copy) is kept in a temporary file that goes to disk beyond a bounded size.',
     ['inputs'],
     'records and archives of every size, sources of every kind: effects on the streams and what each loop carries from one iteration to the next are decided on every path',
     'the tests read small files that can be sought; a record of many gigabytes or a pipe is out of their reach',
     [W + 'archiveiterator.py', W + 'bufferedreaders.py', W + 'recordbuilder.py', W + 'warcwriter.py', W + 'checker.py', W + 'extractor.py', W + 'recompressor.py', W + 'capture_http.py'],
     [('UnseekableYetTellable', W + 'archiveiterator.py'), ('ArchiveIterator.read_to_end', W + 'archiveiterator.py'), ('BufferedReader._fillbuff', W + 'bufferedreaders.py'), ('RecordBuilder.ensure_digest, _iter_stream, _create_temp_file', W + 'recordbuilder.py')],
     'effect analysis on source streams, bounds of every read size, and what loops carry, over abstract paths')


prop('C32', 'Records, readers and writers do not affect each other',
     'Nothing that lasts is changed when warcio runs: no function assigns or changes a variable or object of a module, an attribute of a class, a constant or a default argument, nor puts one of them into an object that changes it. (The thread-local recorder of a capture and what is set up when a module is imported are the exceptions.) The loader, the parsers, the record builder and the writer keep nothing from one record to the next, so that the outcome for a record does not depend on those before it. The mappings and lists a caller passes (warc_headers_dict, info, a list of headers, fields, inputs) are read, not changed, and neither the warc_headers_dict nor the info is kept.',
     ['histories', 'programs'],
     'any history of calls: every change to an object is followed to what the object is, on every path of every function',
     'the tests use objects one at a time in fresh state; what a thousandth record inherits is never looked at',
     [W + 'recordbuilder.py', W + 'recordloader.py', W + 'statusandheaders.py', W + 'digestverifyingreader.py', W + 'warcwriter.py', W + 'utils.py', W + 'bufferedreaders.py', W + 'capture_http.py', W + 'indexer.py'],
     [('RecordBuilder', W + 'recordbuilder.py'), ('ArcWarcRecordLoader', W + 'recordloader.py'), ('DigestChecker', W + 'digestverifyingreader.py'), ('StatusAndHeaders', W + 'statusandheaders.py')],
     'side-effect analysis: alias-resolved targets of every store and mutation over the abstract paths of every function')

prop('C33', 'The status line operations mean what they say',
     'get_statuscode gives what comes before the first space of the status line (all of it if there is none) and changes nothing. validate_statusline gives True and changes nothing exactly if that code is a number above zero; otherwise it gives False and the status line is the one passed in, and no error is raised. add_range sets the status line to "206 Partial Content" and, replacing what is there, Content-Range to "bytes START-LAST/TOTAL" with LAST = START + length - 1, Content-Length to the length of the part and Accept-Ranges to "bytes", changes no other header, and gives the object itself. Two header objects are equal exactly if status line, headers and protocol are, none equals nothing, and != is the opposite. A header object is true exactly if it has a status line or a header.',
     ['inputs'],
     'any status line, headers and ranges: every path of each operation, with what it has found out when it answers',
     'the tests try a handful of status lines and one range',
     [W + 'statusandheaders.py'], [('StatusAndHeaders.get_statuscode, validate_statusline, add_range, __eq__, __bool__', W + 'statusandheaders.py')],
     'abstract interpretation: case analysis of each path against the facts it has established, linear arithmetic for the range')

prop('C34', 'The command line runs the operation its arguments name, with these arguments',
     'warcio has the commands index, recompress, extract and check, one of which has to be given. index takes any number of inputs (the standard input if there are none), -f/--fields with the default offset,warc-type,warc-target-uri, and -o/--output; recompress takes an input, an output and -v/--verbose; extract takes a file, an offset and --payload or --headers but not both; check takes one or more inputs and -v/--verbose; what is not understood is an error. main parses the arguments it is given, and each command runs its operation once, with each argument where it belongs; a text of fields is split at its commas, a list taken as it is; the exit status of check is the one the check gives.',
     ['inputs', 'configurations'],
     'any command line: the parser that is built and where each attribute of its result ends up are read off every path of main and of the commands',
     'the tests run each command with a few combinations of options, mostly the default ones',
     [W + 'cli.py', W + 'indexer.py', W + 'checker.py', W + 'extractor.py', W + 'recompressor.py'],
     [('main, indexer, checker, extractor, recompressor', W + 'cli.py'), ('Indexer.__init__', W + 'indexer.py'), ('Checker.__init__', W + 'checker.py')],
     'symbolic reconstruction of the argument parser and dataflow from its attributes to the parameters of each operation')

prop('C35', 'A buffering writer gives back everything written to it',
     'Each BufferWARCWriter writes to an empty binary temporary file of its own and takes the options of a WARCWriter. get_contents gives everything written so far, from the first byte to the last, changes nothing, and leaves the position where it was, so that writing goes on at the end; get_stream gives the file itself, at its beginning, with everything in it. A WARCWriter writes to the file it was given.',
     ['histories'],
     'any sequence of writes and queries: the position of the file is tracked through every path of each query',
     'the tests ask for the contents once, after the last record',
     [W + 'warcwriter.py', W + 'recordbuilder.py'], [('BufferWARCWriter', W + 'warcwriter.py')],
     'typestate analysis of the file position')

prop('C36', 'Writing a record and reading it back gives the same record',
     'For every record that can be built, parsing what the writer wrote gives a record with the same type, headers, http headers and payload, compressed or not.',
     ['inputs'], 'all records, both formats', 'the tests read back a few records',
     [W + 'warcwriter.py', W + 'recordloader.py'], [('WARCWriter.write_record', W + 'warcwriter.py'), ('ArcWarcRecordLoader.parse_record_stream', W + 'recordloader.py')],
     na='an identity between byte contents at run time of two composed programs (text encoding, the header grammar, zlib); the static part of it is split into what each side must do and claimed as C04, C08, C10-C13, C25-C27; the composition itself needs proofs about strings or execution')
prop('C37', 'A compressed file is recoverable after a crash at any point of writing',
     'If writing stops at any point, every record written completely before can be read back.',
     ['crash_points'], 'every crash point of every write', 'the tests write complete files only',
     [W + 'warcwriter.py'], [('GzippingWrapper', W + 'warcwriter.py')],
     na='what reached the disk depends on buffering of the file object, zlib and the operating system; that each record is one complete gzip member, flushed at its end, is claimed as C10')
prop('C38', 'Captures in several threads at once write disjoint, well-formed records',
     'With any schedule of threads that capture into one writer, each record is written as a whole and belongs to one exchange.',
     ['schedules'], 'all schedules of capturing threads', 'the tests run one thread, or threads without a schedule',
     [W + 'capture_http.py'], [('RequestRecorder', W + 'capture_http.py')],
     na='the writer and its file are shared with code outside of the package (the caller may write to it, use several captures on one file); the lock around the pair of records and the separation of recorders per connection and thread are claimed statically in C18-C20; interleavings with foreign code are a runtime matter')
prop('C39', 'Memory and time stay proportional to the input',
     'Reading takes time linear in the size of the archive, whatever is in it, and memory bounded independently of it.',
     ['inputs'], 'all archives, decompression bombs included', 'the tests use small files',
     [W + 'bufferedreaders.py', W + 'statusandheaders.py'], [('BufferedReader', W + 'bufferedreaders.py')],
     na='the memory a decompressor uses for one block and the length of a line or a chunk are decided by the data; no static bound exists in this code (header lines and chunks are read whole by design); the part that can be bounded is claimed as C31')


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'sa', 'rules')) if f[0] == 'c' and f[1:3].isdigit()}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as out:
        for p in P:
            out.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'hook_needed': None},
            }) + '\n')
    checks, na = [], []
    for p in P:
        if p['na'] is None and p['id'] in have:
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3 -m sa.run %s quick' % p['id'],
                'thorough_cmd': 'python3 -m sa.run %s thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': 'static analysis: ' + p['tech'],
                'level': 'other',
                'level_note': p['note'] or ('Every obligation of the rules is decided on every abstract path of the analysed entry points of the current '
                                            'source; sound up to the modelled semantics (sa/builtins_model.py) and the assumptions listed in the evidence; '
                                            'code the engine cannot model is reported UNDECIDED in the evidence, not as a violation.'),
            })
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'no rule built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na,
         'notes': 'Pure static analysis of /repo/warcio/*.py: nothing of warcio is imported or run by a check. No hooks in /repo.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
