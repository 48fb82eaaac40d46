#!/usr/bin/env python3
"""The properties; writes properties.jsonl and MANIFEST.json.

Run as `python3 props.py` after editing; both outputs are committed."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
PY = '/opt/veriftools/pyvenv/bin/python'
TECH = 'symbolic execution of the real source with z3'
NOTE = ('Every input within the bounds written in the evidence file is '
        'decided by the solver over the current source; violations are '
        'replayed on the real code before they are reported. Trusted: the '
        'symbolic interpreter (its path samples are replayed against the '
        'real interpreter on every run), z3, and the bounds.')


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), na=None, technique=TECH, note=NOTE,
         level='model_checking'):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files,
                 'state': [dict(name=n, meaning=m, where=w)
                           for n, m, w in state],
                 'mechanism': [dict(name=n, where=w) for n, w in mechanism],
                 'observe_at': list(observe), 'hook_needed': None},
        _na=na, _t=technique, _n=note, _l=level))


def write():
    with open(HERE + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items()
                                if not k.startswith('_')}) + '\n')
    m = {
        'version': 1,
        'setup_cmd': PY + ' selftest/setup.py',
        'checks': [{
            'property': p['id'],
            'quick_cmd': '%s run_check.py %s quick' % (PY, p['id']),
            'thorough_cmd': '%s run_check.py %s thorough' % (PY, p['id']),
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['_t'], 'level': p['_l'], 'level_note': p['_n'],
        } for p in P if not p['_na']],
        'not_applicable': [{'property': p['id'], 'reason': p['_na']}
                           for p in P if p['_na']],
        'notes': 'No hooks in /repo: checks read its source as it is.',
    }
    with open(HERE + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


NOTEST = ('The repository has no test of this code at all; and a test fixes '
          'one history of values, while the guarantee is over ')

prop('C01', 'http2 codec round-trips every history of header sets',
     'When the http2 compressor compresses any sequence of header sets on a '
     'connection and a peer configured alike decompresses the results in '
     'order, every decompressed set equals the set that was sent, with no '
     'header lost, added or altered and multiple values of a header compared '
     'without regard to order. This holds for requests and responses, for '
     'any header-table budget, and whatever the sequence makes the table '
     'evict; compression and decompression always terminate.',
     ['histories', 'inputs', 'configurations'],
     'all histories of header sets (values are visible text without the '
     'value separators), all budgets, both directions',
     NOTEST + 'all histories, where evictions hit entries other headers '
     'still refer to.',
     ['compressor/http2/http2Codec.py', 'compressor/http2/__init__.py'],
     [('differential reference set, re-encoding of evicted references',
       'compressor/http2/http2Codec.py encode_headers/compute_diff'),
      ('mirror of the table on the decoder',
       'compressor/http2/http2Codec.py decode_headers')],
     observe=['Processor.compress', 'Processor.decompress'])

prop('C02', 'http2 codec tables stay in sync and within budget',
     'After every header set compressed by the http2 compressor and '
     'decompressed by its peer, both sides hold the same header table with '
     'the same entries marked as referenced. From the first insertion on, '
     'the table never exceeds the configured budget (name length + value '
     'length + 32 per entry), and each side\'s recorded size is the exact '
     'sum over its entries.',
     ['histories', 'inputs', 'configurations'],
     'all histories of header sets, including values larger than the budget',
     NOTEST + 'every combination of entry sizes against the budget.',
     ['compressor/http2/http2Codec.py'],
     [('eviction on append', 'compressor/http2/http2Codec.py '
       'append_encoded_header/append_decoded_header')],
     state=[('encoder_table/decoder_table', 'the shared header table',
             'compressor/http2/http2Codec.py')])

prop('C03', 'http2 integer coding is exact and self-delimiting',
     'Every non-negative integer the http2 compressor writes with a prefix '
     'of 0, 5, 6 or 7 bits is read back as the same integer, with the bits '
     'above the prefix untouched. Reading stops exactly at the end of the '
     'integer, so that whatever follows it is read correctly too.',
     ['inputs'], 'all values, every prefix size in use',
     NOTEST + 'all integers, with every boundary of the prefix and of the '
     'continuation octets.',
     ['compressor/http2/http2Codec.py'],
     [('variable-length integer', 'compressor/http2/http2Codec.py '
       'write_integer/read_integer')])

TESTED = ('The tests sample a few fixed messages; the guarantee is over ')

prop('C04', 'HTTP/1 text round-trips every message',
     'Formatting any header set as an HTTP/1 message and parsing that '
     'message back gives the same header set: every header is kept with '
     'exactly its value, the values of a repeated header (separated by NUL) '
     'keep their number and order, :host becomes the Host line and back, and '
     'the request or status line carries :method, :path, :version or '
     ':version, :status, :status-text; one line holds one value, and an '
     'empty line ends the message. Values that contain ":", ",", ";" or '
     'inner blanks survive. Only a missing :version or :status-text is '
     'filled in.',
     ['inputs'], 'all header sets with lower-case names and values free of '
     'line breaks and of blanks at their ends',
     TESTED + 'every name, value and order of the headers.',
     ['compressor/__init__.py', 'compressor/http1/__init__.py'],
     [('formatting and parsing', 'compressor/__init__.py '
       'format_http1/parse_http1')],
     observe=['Processor.compress', 'Processor.decompress'])

prop('C05', 'Library-backed codecs put every octet of every message on one '
     'continuous stream',
     'For the spdy3, http1_gzip and http1_huffman compressors, a peer that '
     'keeps one inflater per connection (primed with the SPDY dictionary '
     'always for http1_gzip and http1_huffman, and with the "dict" parameter '
     'for spdy3) recovers, message by message and in order, exactly what was '
     'sent: for spdy3 the first 12 octets are sent as they are and the rest '
     'is compressed, together forming length-prefixed (32-bit big-endian) '
     'names and values of every header; for the other two the HTTP/1 text. '
     'Each result is complete when returned (nothing is held back until the '
     'next message). The hyper_hpack compressor hands every header, '
     'unchanged, to one encoder per connection and returns what the decoder '
     'gives.',
     ['histories', 'inputs'],
     'all sequences of messages with non-empty header sets and ASCII values '
     'of any length',
     NOTEST + 'every length and every history on the shared compression '
     'context.',
     ['compressor/spdy3/__init__.py', 'compressor/http1_gzip/__init__.py',
      'compressor/http1_huffman/__init__.py',
      'compressor/hyper_hpack/__init__.py'],
     [('shared deflate context', 'compressor/spdy3/__init__.py compress'),
      ('frame layout', 'compressor/spdy3/__init__.py Spdy3HeadersFormat')],
     observe=['Processor.compress'])

prop('C06', 'HAR import yields exactly the recorded messages',
     'Converting a HAR log yields, in order, one request and one response '
     'header set per http or https entry (scheme in any case) and nothing '
     'for other entries. Each set has every recorded header, with its name '
     'lower-cased and repeated names joined by NUL in order; a Host header '
     'becomes :host, and without one :host is the URL\'s authority. :path is '
     'the URL\'s path ("/" if empty) plus "?" and the query if the query is '
     'not empty, without the fragment; :method and :scheme are lower-cased; '
     ':version is the recorded httpVersion; :status is the number; '
     ':status-text is the recorded text without surrounding blanks, or the '
     'standard phrase ("unknown" if there is none) if it is blank. Nothing '
     'else is added.',
     ['inputs'], 'all HAR logs with well-formed entries',
     TESTED + 'every combination of URL parts, header repetition and case.',
     ['lib/harfile.py'],
     [('conversion', 'lib/harfile.py har2hdrs/process_headers')],
     observe=['har2hdrs'])

prop('C07', 'Streamifiers partition the traffic',
     'Each streamifier (all_one, host, public_suffix) puts every request in '
     'exactly one request stream and its response in the response stream of '
     'the same group, keeps the order of the messages within a stream and '
     'passes each with the host of its request. Streams come in order of '
     'first appearance, the request stream before the response stream, and '
     'are named after the group. all_one makes one group called "all"; host '
     'groups by the host, ignoring case and surrounding blanks; '
     'public_suffix groups by the public suffix of the host without its '
     'port.',
     ['inputs'], 'all sequences of messages and all host names',
     NOTEST + 'all sequences in which hosts interleave.',
     ['lib/streamifiers/all_one.py', 'lib/streamifiers/host.py',
      'lib/streamifiers/public_suffix.py', 'lib/stream.py'],
     [('grouping', 'lib/streamifiers/*.py streamify')],
     observe=['Streamifier.streamify'])

prop('C08', 'Round-trip verifier reports exactly the real differences',
     'compare_headers returns the empty string if and only if the two header '
     'sets carry the same (name, value) pairs, ignoring :version, '
     ':status-text and connection, where a cookie is split at ";" and any '
     'other value at NUL, blanks around the parts do not count, and neither '
     'order nor repetition matters. Otherwise the report names every pair '
     'that only one side has, and names a side exactly if it has such '
     'pairs.',
     ['inputs'], 'all pairs of header sets',
     TESTED + 'all pairs of messages; a verifier that misses a difference '
     'passes every test of the codecs.',
     ['lib/processors.py'],
     [('comparison', 'lib/processors.py '
       'compare_headers/compare_headers_impl')],
     observe=['Processors.compare_headers'])

prop('C09', 'Only hop-by-hop headers are left out of the comparison',
     'Before a message reaches a codec, exactly these headers are removed: '
     ':status-text, :version, keep-alive, connection, and every header named '
     'as a connection option (options separated by commas or NULs, blanks '
     'around them ignored, case-insensitive). All other headers keep their '
     'name and value and the message itself is not modified.',
     ['inputs'], 'all messages and connection header values',
     TESTED + 'every spelling of the connection header.',
     ['lib/processors.py'],
     [('filter', 'lib/processors.py filter_headers')],
     observe=['Processors.filter_headers'])

prop('C10', 'Every codec measures every message once, on a fresh connection '
     'per session',
     'Processing a session gives every configured codec, in the direction of '
     'the session, each message of the session exactly once and in order, '
     'with its host and without hop-by-hop headers, on one codec instance '
     'that was created for that session. Recorded for each codec and '
     'message: the length of what it produced and its ratio to what the '
     'baseline produced for the same message. A mismatch is reported for a '
     'codec and message exactly if the decompressed headers differ; a codec '
     'that does not implement decompression is not reported. In debug mode '
     'the run stops exactly at a mismatch.',
     ['histories', 'inputs'],
     'all sessions, all outputs of the codecs, all orders of the codecs',
     NOTEST + 'every behaviour of the codecs being compared.',
     ['lib/processors.py', 'lib/stream.py'],
     [('measuring', 'lib/processors.py process_session/process_message')],
     observe=['Stream.sizes', 'Stream.ratios', 'output'])

prop('C11', 'Totals, summaries and tables show exactly what was recorded',
     'Adding streams concatenates their messages, sizes, ratios and times '
     'for every codec and leaves the added streams unchanged. The summary '
     'has one line per codec with its total size, total time, total size '
     'over the baseline\'s total size, and the smallest and largest ratio; '
     'the deviation is the sample standard deviation of the ratios (0 for a '
     'single message). The TSV table has one row per message with a running '
     'number that continues across streams, the stream\'s name and the size '
     'for every codec in order, under a heading that names the codecs.',
     ['inputs'], 'all recorded sizes and all numbers of streams and messages',
     NOTEST + 'all recorded values.',
     ['lib/stream.py'],
     [('aggregation', 'lib/stream.py __add__/merge_dols'),
      ('printing', 'lib/stream.py print_summary/print_tsv/meanstdv')],
     observe=['Stream.print_summary', 'Stream.print_tsv'])

prop('C12', 'Codec specifications select the module and its parameters',
     'Each codec specification "module" or "module=params" creates, in the '
     'order given, one request and one response codec of that module. The '
     'parameters are the text after the first "=", without one pair of '
     'enclosing double quotes, split at commas, each without surrounding '
     'blanks; without "=" there are none. Results are recorded under the '
     'module\'s name, followed by the parameters in parentheses, separated by '
     '", ", where there are any.',
     ['inputs', 'configurations'],
     'all lists of specifications with a non-empty parameter text',
     NOTEST + 'all parameter texts.',
     ['lib/processors.py'],
     [('parsing', 'lib/processors.py get_processors')],
     observe=['Processors.get_processors'])

prop('C13', 'fork codec keeps messages and answers aligned',
     'The fork codec starts one process per connection (the path of its '
     'first parameter), writes each message to it as HTTP/1 text and returns '
     'exactly that message\'s answer: in line mode all lines up to, without, '
     'the first blank line; with the "bin" parameter as many octets as the '
     'preceding 64-bit native size says. No octet of one answer is lost or '
     'taken for another\'s, whatever the answers contain.',
     ['histories', 'inputs'], 'all sequences of messages and answers',
     NOTEST + 'all contents and lengths of the answers.',
     ['compressor/fork/__init__.py'],
     [('framing', 'compressor/fork/__init__.py compress')],
     observe=['Processor.compress'])

prop('C14', 'A run accounts for every exchange of every HAR file',
     'A run of the comparison tool over any HAR files processes every '
     'exchange of every file in the streams the chosen streamifier makes. '
     'The baseline is added to the codecs as the first one if it is not '
     'among them. The TSV files (<prefix>req.tsv, <prefix>res.tsv) hold one '
     'row for each message of their direction, numbered through, in stream '
     'order and under the stream\'s own name, with the sizes each codec '
     'produced; the TOTAL summaries for requests and responses count every '
     'message once and add up exactly those sizes.',
     ['histories', 'inputs', 'configurations'],
     'all sets of HAR files with at least one exchange and all codec outputs',
     NOTEST + 'all distributions of the traffic over files and hosts.',
     ['compare_compressors.py', 'lib/processors.py', 'lib/stream.py'],
     [('run', 'compare_compressors.py CompressionTester.run')],
     observe=['TSV files', 'TOTAL summaries'])

prop('C15', 'headerdiff codec round-trips every history of header sets',
     'When the headerdiff compressor compresses any sequence of header sets '
     'and a peer configured alike decompresses the results in order, every '
     'decompressed set equals the set that was sent, multiple values of a '
     'header and cookie crumbs compared without regard to order. This holds '
     'for requests and responses, every buffer size, with full, bounded, '
     'limited or no delta coding, with and without Huffman coding and '
     'deflate.',
     ['histories', 'inputs', 'configurations'],
     'all histories of header sets (visible text without the separators)',
     NOTEST + 'all histories and configurations.',
     ['compressor/headerdiff/headerDiffCodec.py',
      'compressor/headerdiff/__init__.py',
      'compressor/headerdiff/Huffman.py'],
     [('choice of representation, delta coding',
       'compressor/headerdiff/headerDiffCodec.py determineRepresentation'),
      ('parsing', 'compressor/headerdiff/headerDiffCodec.py decodeHeaders')],
     [('header tables', 'indexed headers on both sides',
       'headersTableEncoder, indexedHeadersDecoder')],
     observe=['Processor.compress', 'Processor.decompress'])

prop('C16', 'headerdiff tables stay in step and within the buffer',
     'After every header set the headerdiff encoder and decoder index the '
     'same headers under the same numbers, the values they hold never total '
     'more than the configured buffer, and both count that total correctly, '
     'so the decoder never refuses what the encoder wrote.',
     ['histories', 'inputs', 'configurations'],
     'all histories of header sets and all buffer sizes',
     NOTEST + 'all histories.',
     ['compressor/headerdiff/headerDiffCodec.py'],
     [('incremental and substitution indexing',
       'compressor/headerdiff/headerDiffCodec.py')],
     [('header tables', 'indexed headers on both sides',
       'headersTableEncoder, indexedHeadersDecoder')],
     observe=['header tables after each set'])

prop('C17', 'headerdiff integers are exact and self-delimiting',
     'Every non-negative integer written by headerdiff with any of the '
     'prefix lengths the format uses is read back as the same value, '
     'consuming exactly the octets written and leaving the pattern bits and '
     'the neighbouring octets alone.',
     ['inputs'], 'all values and prefix lengths',
     NOTEST + 'all values.',
     ['compressor/headerdiff/headerDiffCodec.py'],
     [('integers', 'compressor/headerdiff/headerDiffCodec.py '
       'writeInteger/readInteger')],
     observe=['writeInteger', 'readInteger'])

prop('C18', 'Huffman coders of the SPDY/4 family are exact',
     'With the shipped request and response codes, and with a code made '
     'from any table of frequencies, each of the five Huffman coders '
     '(delta, delta2, delta_bohe, bohe, delta2_bohe) decodes every octet '
     'string it encoded to that same string, at any bit offset, ended by '
     'the end symbol or by its length in bits, and consumes exactly the bits '
     'it was given.',
     ['inputs', 'configurations'], 'all octet strings, offsets and tables',
     NOTEST + 'all octets, offsets and tables.',
     ['compressor/delta/huffman.py', 'compressor/delta2/huffman.py',
      'compressor/delta_bohe/huffman.py', 'compressor/bohe/huffman.py',
      'compressor/delta2_bohe/huffman.py'],
     [('building the code', 'Huffman.BuildCodeTree, BuildCodeTable'),
      ('coding', 'Huffman.EncodeToBB, DecodeFromBB')],
     observe=['EncodeToBB', 'DecodeFromBB'])

prop('C19', 'Bit buckets are exact first-in first-out queues of bits',
     'Whatever mixture of bits, 4, 8, 16, 22 and 32 bit words and bit strings '
     'is stored in a bit bucket and in whatever pieces it is read again, '
     'interleaved or afterwards, the bits come out in the order they went '
     'in, unused bits of the last octet never leak, and the counts of bits '
     '(stored and unread) and octets and the end-of-data test are right.',
     ['inputs', 'histories'], 'all sequences of stores and reads',
     NOTEST + 'all alignments and contents.',
     ['compressor/delta/bit_bucket.py', 'compressor/delta2/bit_bucket.py',
      'compressor/delta_bohe/bit_bucket.py', 'compressor/bohe/bit_bucket.py',
      'compressor/delta2_bohe/bit_bucket.py'],
     [('store', 'BitBucket.StoreBits*'), ('read', 'BitBucket.GetBits*')],
     [('output', 'octets, offsets of writer and reader', 'BitBucket')],
     observe=['GetBits*', 'GetAllBits', 'NumBits', 'AllConsumed'])

prop('C20', 'delta2 codec round-trips every history of header sets',
     'When the delta2 compressor compresses any sequence of header sets for '
     'any hosts and a peer configured alike decompresses the frames in '
     'order, every decompressed set holds the headers that were sent with '
     'the same values (members of a multiple value and cookie crumbs '
     'compared without regard to order and blanks around them). This holds '
     'for requests and responses, for every size of the store, with its '
     'numbers starting again, and for every combination of the codec\'s '
     'parameters.',
     ['histories', 'inputs', 'configurations'],
     'all histories of header sets of up to 64 KB a frame',
     NOTEST + 'all histories and configurations.',
     ['compressor/delta2/spdy4_codec_impl.py',
      'compressor/delta2/lrustorage.py', 'compressor/delta2/__init__.py',
      'compressor/delta2/common_utils.py'],
     [('choice of operations', 'compressor/delta2/spdy4_codec_impl.py '
       'MakeOperations'),
      ('wire format', 'compressor/delta2/spdy4_codec_impl.py Spdy4SeDer')],
     [('store', 'entries and header groups on both sides', 'Storage')],
     observe=['Processor.compress', 'Processor.decompress'])

prop('C21', 'delta2 stores stay in step and within their limits',
     'After every header set the delta2 encoder and decoder hold the same '
     'entries under the same numbers, no number twice, in no more than '
     'max_entries entries whose values total no more than max_byte_size '
     'octets; their header groups are the same and refer only to entries '
     'that are still held.',
     ['histories', 'inputs', 'configurations'],
     'all histories of header sets and all limits',
     NOTEST + 'all histories.',
     ['compressor/delta2/spdy4_codec_impl.py',
      'compressor/delta2/lrustorage.py'],
     [('execution of operations', 'compressor/delta2/spdy4_codec_impl.py '
       'DecompressorExecuteOps'),
      ('eviction', 'compressor/delta2/lrustorage.py Reserve, PopOne')],
     [('store', 'entries and header groups on both sides', 'Storage')],
     observe=['store and header groups after each set'])

prop('C22', 'delta codec round-trips every history of header sets',
     'When the delta compressor compresses any sequence of header sets for '
     'any hosts and a peer configured alike decompresses the frames in '
     'order, every decompressed set holds the headers that were sent with '
     'the same values (members of a multiple value and cookie crumbs '
     'compared without regard to order and blanks around them). This holds '
     'for requests and responses, for every name, for any number of values '
     'in a set, for every limit on entries and octets, with entries evicted '
     'and numbers starting again.',
     ['histories', 'inputs', 'configurations'],
     'all histories of header sets of up to 64 KB a frame',
     NOTEST + 'all histories and configurations.',
     ['compressor/delta/spdy4_codec_impl.py', 'compressor/delta/__init__.py',
      'compressor/delta/common_utils.py'],
     [('choice of operations', 'compressor/delta/spdy4_codec_impl.py '
       'MakeOperations'),
      ('wire format', 'compressor/delta/spdy4_codec_impl.py Spdy4SeDer')],
     [('store', 'entries and header groups on both sides', 'Storage')],
     observe=['Processor.compress', 'Processor.decompress'])

prop('C23', 'delta stores stay in step and within their limits',
     'After every header set the delta encoder and decoder hold the same '
     'entries under the same numbers, no number twice and none for an entry '
     'that is gone, in no more than max_entries entries whose names (counted '
     'once) and values take no more than max_byte_size octets; names have '
     'the same numbers on both sides; their header groups are the same and '
     'refer only to entries that are still held.',
     ['histories', 'inputs', 'configurations'],
     'all histories of header sets and all limits',
     NOTEST + 'all histories.',
     ['compressor/delta/spdy4_codec_impl.py'],
     [('execution of operations', 'compressor/delta/spdy4_codec_impl.py '
       'DecompressorExecuteOps'),
      ('eviction', 'compressor/delta/spdy4_codec_impl.py MakeSpace, PopOne')],
     [('store', 'entries and header groups on both sides', 'Storage')],
     observe=['store and header groups after each set'])

prop('C24', 'simple codec round-trips every history of header sets',
     'When the simple compressor compresses any sequence of header sets and a '
     'peer configured alike decompresses the results in order, every '
     'decompressed set equals the set that was sent, with the values of a '
     'repeated header in their order (only :version and :status-text are left '
     'out). This holds for requests and responses, for every name, with '
     'seven-bit coding, with compression of dates whatever the date headers '
     'hold, and with any limit on references. Exactly the headers that are '
     'the same as in the set before (of those that start with ":" only :host) '
     'are sent as references, never more than max_entries.',
     ['histories', 'inputs', 'configurations'],
     'all histories of header sets of visible text',
     NOTEST + 'all values of date headers and all histories.',
     ['compressor/simple/__init__.py', 'compressor/simple/seven.py',
      'compressor/__init__.py'],
     [('compression', 'compressor/simple/__init__.py compress'),
      ('decompression', 'compressor/simple/__init__.py decompress'),
      ('seven bits', 'compressor/simple/seven.py')],
     [('last header sets', 'what references refer to', 'last_c, last_d')],
     observe=['decompressed headers', 'references in the compressed text'])

prop('C25', 'delta2 store is an exact numbered first-in first-out store',
     'The store of the delta2 codec numbers its entries one after another '
     'from its first number and starts again there after the last; it holds '
     'them in that order, finds each under exactly its number and nothing '
     'under any other, and finds the newest entry of a name, or the newest '
     'with a name and a value. Room is made by dropping the oldest entries, '
     'no more than needed, each announced once and in order; it never holds '
     'more than its limits of entries and octets and counts both exactly, '
     'and a store without room for any entry takes none and drops none.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of operations and all limits',
     TESTED + 'all sequences, limits and numbers.',
     ['compressor/delta2/lrustorage.py'],
     [('numbering and eviction', 'LruStorage.Store, Reserve, PopOne'),
      ('search', 'LruStorage.Lookup, FindKeyValEntries')],
     [('ring', 'entries, oldest first', 'LruStorage')],
     observe=['Lookup', 'FindKeyValEntries', 'pop_cb', 'byte_size', 'len'])

prop('C26', 'Sample external codec answers every message',
     'The sample of a codec in a process of its own answers every message it '
     'is sent, in order and before it waits for the next, with exactly the '
     'lines of that message followed by one empty line, and ends when its '
     'input and output do.',
     ['histories', 'inputs'], 'all sequences of messages',
     NOTEST + 'all messages.',
     ['sample_exec_codec.py'],
     [('main loop', 'sample_exec_codec.py main')],
     [],
     observe=['standard output'])

prop('C27', 'bohe codec writes every header so that it can be read back',
     'Every header set the bohe codec compresses can be taken apart again from '
     'the result: header after header, the number of a registered name or the '
     'length and the characters of any other; a flag for several values; the '
     'number of octets of the value in 22 bits, and the value, Huffman coded '
     'up to the end symbol, or flagged and encoded by its kind. The encoders '
     'of the BOHE codecs (bohe, delta_bohe, delta2_bohe) write each number '
     '(:status, content-length, age) of a value as a self-delimiting integer '
     'of seven bits an octet, dates as seconds since 1990-01-01 or the number '
     'of seconds given (0 if it is neither), a known method in any case as '
     'one octet of its own and any other as it is, etags as their number and '
     'the 16 octets of the MD5 digest of each; of cache-control the values '
     'of max-age and, for requests, max-stale and min-fresh, for responses '
     's-maxage and the field names of no-cache and private, 0 for what is '
     'missing.',
     ['inputs'], 'all header sets and values',
     NOTEST + 'all values.',
     ['compressor/bohe/__init__.py', 'compressor/bohe/bohe.py',
      'compressor/delta_bohe/bohe.py', 'compressor/delta2_bohe/bohe.py',
      'compressor/bohe/bit_bucket.py'],
     [('frame', 'compressor/bohe/__init__.py compress'),
      ('values', 'bohe.py enc_uvarint, enc_date, enc_method, enc_etag, '
       'enc_cachecontrol')],
     [],
     observe=['result of compress', 'results of the encoders'])

if __name__ == '__main__':
    write()
