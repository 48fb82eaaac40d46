"""The comparison tool itself (lib/, compare_compressors.py, HTTP/1)."""

VIS = ''.join([chr(c) for c in range(33, 127)])
TEXT = VIS + ' \t'
NAME = 'abcdefghijklmnopqrstuvwxyz-'


class Opts(object):
    verbose = 0
    debug = False
    baseline = 'http1'
    processor_names = []
    streamifier = 'host'
    tsv = False
    prefix = ''


# -- HTTP/1 text ---------------------------------------------------------
def text(S, nm, maxlen, alphabet):
    """A value of 0..maxlen characters that neither starts nor ends with a
    blank."""
    v = S.strup(nm, 0, maxlen, alphabet)
    if len(v):
        for c in (v[0], v[len(v) - 1]):
            S.assume(S.neg(S.either(S.eq(c, ' '), S.eq(c, '\t'))))
    return v


def http1(S):
    P = S.params
    m = S.load('compressor.http1')
    hdrs = []
    req = P['is_request']
    if req:
        hdrs.append((':method', S.atom('method', 1, 6, ['get'], NAME)))
        hdrs.append((':path', S.atom('path', 1, 40, ['/'], VIS)))
        if P['full']:
            hdrs.append((':scheme', S.choice('scheme', ['http', 'https'])))
            hdrs.append((':host', S.atom('host', 1, 20, [], VIS)))
    else:
        hdrs.append((':status', S.atom('status', 3, 3, ['200'],
                                       '0123456789')))
        if P['full']:
            hdrs.append((':status-text', 'Not Found'))
    if P['full'] and S.truth(S.bool('ver')):
        hdrs.append((':version', 'HTTP/1.0'))
    used = []
    for i in range(P['n']):
        nm = P['names'][i] if P.get('names') else \
            S.str('n%d' % i, P['nlen'], NAME)
        for o in used:
            S.assume(S.neg(S.eq(nm, o)))
        S.assume(S.neg(S.eq(nm, 'host')))
        used.append(nm)
        vs = []
        for k in range(P['nvals']):
            if P['chars']:
                vs.append(text(S, 'v%d.%d' % (i, k), P['chars'],
                               P['alphabet']))
            else:
                vs.append(S.atom('v%d.%d' % (i, k), 0, 500, [], VIS))
        v = vs[0]
        for x in vs[1:]:
            v = v + '\0' + x
        hdrs.append((nm, v))
    if P.get('rotate'):
        r = S.choice('rot', list(range(len(hdrs))))
        hdrs = hdrs[r:] + hdrs[:r]
    enc = m.Processor(Opts(), req, [])
    frame = enc.compress(S.dict(hdrs), 'h')
    want = dict(hdrs)
    lines = frame.split('\r\n')
    ver = want.get(':version', 'HTTP/1.1')
    if req:
        S.check_eq(lines[0], want[':method'] + ' ' + want[':path'] + ' ' +
                   ver, 'request line')
    else:
        S.check(S.eq(lines[0][:len(ver) + 5], ver + ' ' + want[':status'] +
                     ' '), 'status line')
        if P['full']:
            S.check_eq(lines[0][len(ver) + 5:], want[':status-text'],
                       'status text')
    S.check(lines[-1] == '' and lines[-2] == '', 'end of the message')
    fields = len(lines) - 3
    S.check(fields == sum([P['nvals'] if k in used else 1
                           for k, v in hdrs if k in used or
                           k in (':host', ':scheme')]), 'number of lines')
    if ':host' in want:
        at = [i for i, k in enumerate([k for k, v in hdrs
                                       if k in used or
                                       k in (':host', ':scheme')])
              if k == ':host'][0]
        at = [x for x in lines[1:-2][at:at + 1]]
        at.extend(lines[1:-2])
        for x in at:
            if S.truth(S.either(*[S.eq(x[:6], n) for n in
                                  ('host: ', 'Host: ')])):
                S.check_eq(x[6:], want[':host'], 'Host line')
                break
        else:
            S.fail('no Host line')
    got = enc.decompress(frame)
    for k, v in hdrs:
        S.check(k in got, 'header lost')
        S.check_eq(got[k], v, 'header value')
    extra = 0
    for k in (':version', ':status-text'):
        if k not in want and k in got:
            extra = extra + 1
    S.check(len(got) == len(hdrs) + extra, 'header invented')
    S.observe('n', len(got))
    S.cover('end')


# -- the lossless byte-stream codecs ----------------------------------------
def unpack32(s, i):
    return ((ord(s[i]) << 24) | (ord(s[i + 1]) << 16) |
            (ord(s[i + 2]) << 8) | ord(s[i + 3]))


def as_text(b):
    return b if isinstance(b, str) else b.decode('latin-1')


def request_text(hdrs):
    """A request in HTTP/1 as the documentation has it (C04)."""
    d = dict(hdrs)
    t = d[':method'] + ' ' + d[':path'] + ' HTTP/1.1\r\n'
    for k, v in hdrs:
        if k == ':host':
            k = 'host'
        if k not in (':method', ':path'):
            t = t + k + ': ' + v + '\r\n'
    return t + '\r\n'


def streams(S):
    """spdy3, http1_gzip, http1_huffman: what the peer inflates is the frame
    of every message, in order, on one continuous stream."""
    import zlib
    P = S.params
    m = S.load('compressor.' + P['codec'])
    enc = m.Processor(Opts(), True, P['params'])
    ref = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION, zlib.DEFLATED, 15)
    if P['codec'] == 'http1_huffman':
        ref = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION, zlib.DEFLATED, 15,
                               8, zlib.Z_HUFFMAN_ONLY)
    dec = zlib.decompressobj()
    if P['primed']:
        d = S.load('compressor.spdy_dictionary').spdy_dict.encode('latin-1')
        p = ref.compress(d) + ref.flush(zlib.Z_SYNC_FLUSH)
        dec.decompress(p)
    for i in range(P['n']):
        hdrs = []
        if P['codec'] != 'spdy3':
            hdrs = [(':method', 'get'), (':path', '/p')]
        for nm in P['names']:
            if nm == P['names'][0] or S.truth(S.bool('p%d.%s' % (i, nm))):
                if P['big']:
                    v = S.atom('v%d.%s' % (i, nm), 0, 70000, [], TEXT)
                else:
                    v = S.strup('v%d.%s' % (i, nm), 0, 3, TEXT)
                hdrs.append((nm, v))
        out = enc.compress(S.dict(hdrs), 'h')
        if P['codec'] == 'spdy3':
            frame = as_text(out[:12] + dec.decompress(out[12:]))
            at = 0
            for k, v in hdrs:
                S.check(unpack32(frame, at) == len(k), 'name length')
                at = at + 4
                S.check_eq(frame[at:at + len(k)], k, 'name')
                at = at + len(k)
                S.check(unpack32(frame, at) == len(v), 'value length')
                at = at + 4
                S.check_eq(frame[at:at + len(v)], v, 'value')
                at = at + len(v)
            S.check(at == len(frame), 'frame length')
        else:
            S.check_eq(as_text(dec.decompress(out)), request_text(hdrs),
                       'inflated text')
    S.cover('end')


# -- the fork codec ----------------------------------------------------------
class Pipe(object):
    def __init__(self, text):
        self.text = text
        self.got = []

    def write(self, b):
        self.got.append(as_text(b))

    def flush(self):
        pass

    def close(self):
        pass

    def read(self, n=-1):
        if n < 0:
            r, self.text = self.text, ''
        else:
            r, self.text = self.text[:n], self.text[n:]
        return r.encode('latin-1')

    def readline(self):
        i = self.text.find('\n')
        r = self.text if i < 0 else self.text[:i + 1]
        self.text = '' if i < 0 else self.text[i + 1:]
        return r.encode('latin-1')


def pack64(n):
    import struct
    return as_text(struct.pack('q', n))


def fork(S):
    P = S.params
    ps = []
    outs, feed = [], ''
    for i in range(P['n']):
        if P['bin']:
            w = S.atom('o%d' % i, 0, 5000, [], None) if P['opaque'] else \
                S.strup('o%d' % i, 0, 3, 'a\n\0')
            feed = feed + pack64(len(w)) + w
        else:
            w = ''
            for j in range(S.choice('lines%d' % i, [0, 1, 2])):
                w = w + S.atom('o%d.%d' % (i, j), 1, 200, [], VIS) + \
                    S.choice('nl%d.%d' % (i, j), ['\n', '\r\n'])
            feed = feed + w + S.choice('end%d' % i, ['\n', '\r\n'])
        outs.append(w)

    class Popen(object):
        def __init__(self, cmd, *a, **k):
            self.cmd = cmd
            self.stdin = Pipe('')
            self.stdout = Pipe(feed)
            ps.append(self)
    S.inject('subprocess', {'Popen': Popen, 'PIPE': -1})
    m = S.load('compressor.fork', fresh=True)
    p = m.Processor(Opts(), True, ['cmd'] + (['bin'] if P['bin'] else []))
    S.check(len(ps) == 1, 'one process')
    S.check(ps[0].cmd.endswith('/cmd'), 'command')
    for i in range(P['n']):
        hdrs = [(':method', 'get'), (':path', '/'),
                ('a', S.atom('v%d' % i, 0, 100, [], VIS))]
        del ps[0].stdin.got[:]
        r = p.compress(S.dict(hdrs), 'h')
        S.check_eq(as_text(r), outs[i], 'output of the process')
        S.check_eq(''.join(ps[0].stdin.got), request_text(hdrs),
                   'input of the process')
    S.check(len(ps) == 1, 'one process')
    S.cover('end')


class Lines(object):
    """Standard input of a program; notes what has been answered when the
    first line of a message is asked for."""

    def __init__(self, messages, out):
        self.lines = []
        for m in messages:
            self.lines.append(None)
            self.lines.extend(m)
        self.lines.append(None)
        self.out = out
        self.seen = []
        self.ended = False

    def readline(self, *a):
        if self.lines and self.lines[0] is None:
            self.lines.pop(0)
            self.seen.append(len(self.out.done))
        if not self.lines:
            self.ended = self.out.ended = True
            return ''
        return self.lines.pop(0)

    def __iter__(self):
        while True:
            s = self.readline()
            if s == '':
                break
            yield s

    def readable(self):
        return True


class Answers(object):
    def __init__(self):
        self.text = []
        self.done = []
        self.ended = False

    def write(self, s):
        self.text.append(s)
        return len(s)

    def writelines(self, ss):
        for s in ss:
            self.write(s)

    def flush(self):
        if self.ended:
            raise IOError('closed')
        self.done.extend(self.text)
        del self.text[:]


def sample(S):
    """The sample of a codec in a process of its own."""
    P = S.params
    msgs, want = [], []
    for i in range(P['n']):
        nl = S.choice('nl%d' % i, ['\n', '\r\n'])
        ls = []
        for j in range(S.choice('lines%d' % i, list(range(P['lines'] + 1)))):
            # (a line that is not empty)
            ls.append(S.atom('t%d.%d' % (i, j), 1, 200, [], VIS) + nl)
        want.append(''.join(ls))
        msgs.append(ls + [nl])
    out = Answers()
    inp = Lines(msgs, out)
    S.script('sample_exec_codec', S.choice('argv', [[], ['name']]), inp, out)
    S.check(inp.ended, 'ended before its input')
    S.check(len(inp.seen) == P['n'] + 1, 'messages read')
    for i in range(P['n']):
        a, b = inp.seen[i:i + 2]
        S.check_eq(''.join(out.done[a:b]), want[i] + '\n', 'answer')
    S.check(inp.seen[0] == 0, 'answer before the first message')
    S.cover('end')


# -- hyper_hpack -----------------------------------------------------------
def hyper(S):
    """hpack is an ordered lossless channel of header lists; the wrapper must
    hand it every header as it is, on one encoder per connection."""
    P = S.params
    store = []

    class Encoder(object):
        def __init__(self, *a, **k):
            self.tag = len(store)
            store.append([])

        def encode(self, headers, huffman=True):
            if isinstance(headers, dict):
                headers = list(headers.items())
            store[self.tag].append([(h[0], h[1]) for h in headers])
            return 'blob%d' % self.tag + 'x' * len(store[self.tag])

    class Decoder(object):
        def __init__(self, *a, **k):
            self.n = 0

        def decode(self, data, raw=False):
            tag = int(data[4])
            self.n = self.n + 1
            if len(data) - 5 != self.n:
                raise ValueError('blob out of order')
            return store[tag][self.n - 1]
    S.inject('hpack', {'Encoder': Encoder, 'Decoder': Decoder})
    m = S.load('compressor.hyper_hpack', fresh=True)
    pr = S.load('lib.processors')
    enc = m.Processor(Opts(), True, [])
    dec = m.Processor(Opts(), True, [])
    for i in range(P['n']):
        hdrs = []
        for nm in (':method', ':path', 'cookie', 'x-a'):
            if S.truth(S.bool('p%d.%s' % (i, nm))):
                v = S.atom('v%d.%s' % (i, nm), 0, 300, [], VIS)
                if nm == 'x-a':
                    v = v + '\0' + S.atom('w%d.%s' % (i, nm), 0, 300, [],
                                          VIS)
                hdrs.append((nm, v))
        got = dict(dec.decompress(enc.compress(S.dict(hdrs), 'h')))
        S.check(len(got) == len(hdrs), 'headers lost or invented')
        for k, v in hdrs:
            S.check(k in got, 'header lost')
            S.check_eq(got[k], v, 'header value')
    S.cover('end')
