"""The http2 compressor: tables and integers."""


def entry_size(h):
    return len(h[0]) + len(h[1]) + 32


def tables(S):
    """Encoder and decoder tables agree and stay within the budget after
    every frame, whatever the decoder makes of the frame."""
    P = S.params
    m = S.load('compressor.http2')
    enc = m.Processor({}, P['is_request'], list(P['params']))
    dec = m.Processor({}, P['is_request'], list(P['params']))
    limit = P['limit']
    et0 = [e.header for e in S.peek(S.peek(enc, 'codec'), 'encoder_table')]
    for hs in P.get('prologue', []):
        dec.decompress(enc.compress(S.dict([(n, v) for n, v in hs]), 'h'))
    for i in range(P['nsets']):
        sent = []
        for spec in P['names']:
            if not (len(spec) > 3 and i in spec[3]):
                if not S.truth(S.bool('p%d.%s' % (i, spec[0]))):
                    continue
            sent.append((spec[0], S.atom('v%d.%s' % (i, spec[0]), spec[1],
                                         spec[2], (), P['alphabet'])))
        dec.decompress(enc.compress(S.dict(sent), 'h'))
        e = S.peek(enc, 'codec')
        d = S.peek(dec, 'codec')
        et = S.peek(e, 'encoder_table')
        dt = S.peek(d, 'decoder_table')
        S.check(len(et) == len(dt), 'number of entries differ')
        total = 0
        for k in range(len(et)):
            S.check(S.eq(et[k].header, dt[k].header), 'entries differ')
            S.check(et[k].referenced == dt[k].referenced,
                    'reference flags differ')
            total = total + entry_size(et[k].header)
        same = len(et) == len(et0)
        S.check(S.either(total <= limit, same and
                         S.eq([x.header for x in et], et0)),
                'table larger than its budget')
        S.observe('size%d' % i, total)
        S.observe('len%d' % i, len(et))
        S.check(S.peek(e, 'encoder_table_size') == total,
                'encoder size accounting')
        S.check(S.peek(d, 'decoder_table_size') == total,
                'decoder size accounting')


def integer(S):
    """write_integer then read_integer, any value, followed by another."""
    P = S.params
    m = S.load('compressor.http2')
    p = P['prefix']
    c = m.Processor({}, True, []).codec
    d = m.Processor({}, True, []).codec
    write = S.peek(c, 'write_integer')
    read = S.peek(d, 'read_integer')
    nxt = S.peek(d, 'read_next_byte')
    v = S.int('v', 0, P['max'])
    w = S.int('w', 0, 300)
    before = S.str('before', 1)
    c.encoded_stream = before
    write(P['byte'], p, v)
    write(0, 0, w)
    s = c.encoded_stream
    S.check(S.eq(s[:1], before), 'overwrote earlier bytes')
    d.decoded_stream = s
    d.decoded_stream_index = 1
    b = 0
    if p > 0:
        b = nxt()
        S.check((b >> p) << p == P['byte'], 'pattern bits')
    S.check(read(b, p) == v, 'value')
    S.observe('at', d.decoded_stream_index)
    S.check(read(0, 0) == w, 'the following integer')
    S.check(d.decoded_stream_index == len(s), 'not self-delimiting')
