"""lib/: streamifiers, the verifier, the measuring loop, statistics."""

VIS = ''.join([chr(c) for c in range(33, 127)])


class Opts(object):
    verbose = 0
    debug = False
    baseline = 'http1'
    processor_names = []
    streamifier = 'host'
    tsv = False
    prefix = ''


# -- streamifiers ------------------------------------------------------------
class PSL(object):
    """Stands in for publicsuffix: some function of the domain name."""

    def __init__(self, *a):
        pass

    def get_public_suffix(self, domain):
        return domain[-1:]


def streamify(S):
    P = S.params
    kind = P['kind']
    if kind == 'public_suffix':
        S.inject('publicsuffix', {'PublicSuffixList': PSL})
    m = S.load('lib.streamifiers.' + kind, fresh=True)
    msgs, groups, hosts = [], [], []
    for i in range(P['n']):
        h = S.strup('h%d' % i, 1, P['hlen'], P['alphabet'])
        if kind == 'public_suffix':
            S.assume(S.neg(S.eq(h[0], ':')))
        req = S.dict([(':host', h), ('id', 'q%d' % i)])
        res = S.dict([('id', 's%d' % i)])
        msgs.append((req, res))
        hosts.append(h)
        if kind == 'all_one':
            g = 'all'
        elif kind == 'host':
            g = h.lower().strip()
        else:
            g = h.split(':', 1)[0][-1:]
        for e in groups:
            if S.truth(S.eq(e[0], g)):
                e[1].append(i)
                break
        else:
            groups.append((g, [i]))
    out = m.Streamifier(['a', 'bb']).streamify(msgs)
    S.check(len(out) == 2 * len(groups), 'one stream per group and direction')
    for k in range(len(groups)):
        g, idx = groups[k]
        for d in (0, 1):
            s = out[2 * k + d]
            S.check(s.msg_type == ('req', 'res')[d], 'direction')
            S.check_eq(s.name, g, 'stream name')
            S.check(len(s.messages) == len(idx), 'messages of a stream')
            S.check(list(s.procs) == ['a', 'bb'], 'codecs')
            for j in range(len(idx)):
                msg, host = s.messages[j]
                S.check(msg is msgs[idx[j]][d], 'message in its place')
                S.check_eq(host.lower().strip(),
                           hosts[idx[j]].lower().strip(), 'host')
    S.observe('n', len(out))
    S.cover('end')


# -- the verifier ----------------------------------------------------------
def items(S, hdrs, ignores):
    """The (name, value) pairs a message stands for."""
    out = []
    for k, v in hdrs:
        if k in ignores:
            continue
        for x in v.split(';' if k == 'cookie' else '\0'):
            out.append((k, x.strip(' ')))
    return out


def has(S, xs, y):
    r = False
    for x in xs:
        if x[0] == y[0]:
            r = S.either(r, S.eq(x[1], y[1]))
    return r


def compare(S):
    P = S.params
    m = S.load('lib.processors')
    sides = []
    for side in 'ab':
        hd = []
        for nm in P['names']:
            if not P['optional'] or S.truth(S.bool('%s.%s' % (side, nm))):
                if P['opaque']:
                    v = S.atom('%s.%s.v' % (side, nm), 0, 300, [],
                               VIS)
                else:
                    v = S.strup('%s.%s.v' % (side, nm), P['lo'], P['hi'],
                                P['alphabet'])
                hd.append((nm, v))
        sides.append(hd)
    a, b = sides
    ia = items(S, a, (':version', ':status-text', 'connection'))
    ib = items(S, b, (':version', ':status-text', 'connection'))
    got = m.Processors.compare_headers(S.dict(a), '\x01', S.dict(b), '\x02')
    la, lb = [], []
    for x in ia:
        if not S.truth(has(S, ib, x)):
            la.append(x)
    for x in ib:
        if not S.truth(has(S, ia, x)):
            lb.append(x)
    if not la and not lb:
        S.check_eq(got, '', 'equal messages reported as different')
        S.cover('equal')
    else:
        S.check(len(got) > 0, 'difference not reported')
        pos = -1
        for x in la:
            S.check(('%s: %s' % x) in got, 'difference not named')
        for x in lb:
            S.check(('%s: %s' % x) in got, 'difference not named')
        S.check(('\x01' in got) == (len(la) > 0), 'side not named')
        S.check(('\x02' in got) == (len(lb) > 0), 'side not named')
        S.cover('different')
    S.observe('r', len(got) > 0)


# -- hop-by-hop headers --------------------------------------------------------
def hop(S):
    P = S.params
    m = S.load('lib.processors')
    names = [':status-text', ':version', 'keep-alive', 'connection', 'a',
             'ab', 'b', ':method']
    hdrs = []
    conn = None
    for nm in names:
        if nm in P['fixed'] or S.truth(S.bool('p.' + nm)):
            if nm == 'connection':
                v = conn = S.strup('conn', 0, P['len'], P['alphabet'])
            else:
                v = S.atom('v.' + nm, 0, 100, [], VIS)
            hdrs.append((nm, v))
    src = S.dict(hdrs)
    got = m.Processors.filter_headers(src)
    toks = []
    if conn is not None:
        for part in conn.split('\0'):
            for x in part.split(','):
                toks.append(x.strip(' ').lower())
    n = 0
    for nm, v in hdrs:
        drop = nm in names[:4]
        for t in toks:
            drop = S.either(drop, S.eq(t, nm))
        if S.truth(drop):
            S.check(nm not in got, 'hop-by-hop header kept')
        else:
            S.check(nm in got, 'end-to-end header dropped')
            S.check_eq(got[nm], v, 'value changed')
            n = n + 1
    S.check(len(got) == n, 'header invented')
    S.check(len(src) == len(hdrs), 'the message itself was changed')
    S.observe('n', n)
    S.cover('end')


# -- codec specifications ------------------------------------------------------
def mkstub(log, tag, behave=None):
    class Processor(object):
        def __init__(self, options, is_request, params):
            self.name = tag
            self.is_request = is_request
            self.params = params
            log.append(('new', tag, is_request, params, self))
            self.n = 0

        def compress(self, hdrs, host):
            log.append(('compress', tag, self, hdrs, host))
            self.n = self.n + 1
            return behave(self, hdrs)

        def decompress(self, data):
            log.append(('decompress', tag, self, data))
            r = behave(self, None)
            if r is None:
                raise NotImplementedError
            return r

        def done(self):
            log.append(('done', tag, self))
    return {'Processor': Processor}


def specs(S):
    P = S.params
    log = []
    for t in ('stuba', 'stubb'):
        S.inject('compressor.' + t, mkstub(log, t))
    m = S.load('lib.processors')
    names, want = [], []
    for i in range(P['n']):
        mod = S.choice('m%d' % i, ['stuba', 'stubb'])
        if P['params']:
            s = S.strup('p%d' % i, 1, P['len'], P['alphabet'])
            spec = mod + '=' + s
            if len(s) >= 2 and S.truth(S.both(S.eq(s[0], '"'),
                                              S.eq(s[len(s) - 1], '"'))):
                s = s[1:len(s) - 1]
            elif len(s) == 1:
                S.assume(S.neg(S.eq(s, '"')))
            ps = [x.strip() for x in s.split(',')]
        else:
            spec, ps = mod, []
        names.append(spec)
        want.append((mod, ps))
    o = Opts()
    o.processor_names = names
    p = m.Processors(o, ['req', 'res'], None)
    got = p.get_processors(names)
    for kind in ('req', 'res'):
        S.check(len(got[kind]) == len(want), 'one codec per specification')
        for i in range(len(want)):
            x = got[kind][i]
            S.check(x.name == want[i][0], 'module')
            S.check(x.is_request == (kind == 'req'), 'direction')
            S.check(len(x.params) == len(want[i][1]), 'number of parameters')
            for a, b in zip(x.params, want[i][1]):
                S.check_eq(a, b, 'parameter')
    S.observe('n', [len(x.params) for x in got['req']])
    S.cover('end')


def labels(S):
    """Real codecs: the name under which results are recorded."""
    P = S.params
    m = S.load('lib.processors')
    S.load('compressor.http1')
    s = S.strup('p', 1, P['len'], P['alphabet'])
    S.assume(S.neg(S.eq(s[0], '"')))
    o = Opts()
    o.processor_names = names = ['http1=' + s, 'http1']
    p = m.Processors(o, ['req', 'res'], None)
    got = p.get_processors(names)
    ps = [x.strip() for x in s.split(',')]
    want = ps[0]
    for x in ps[1:]:
        want = want + ', ' + x
    for kind in ('req', 'res'):
        a, b = got[kind]
        S.check_eq(a.name, 'http1 (' + want + ')', 'name with parameters')
        S.check(b.name == 'http1', 'name without parameters')
        for x in (a, b):
            S.check(x.is_request == (kind == 'req'), 'direction')
            S.check(x.options is o, 'options')
        S.check(len(a.params) == len(ps) and not b.params, 'parameters')
        for x, y in zip(a.params, ps):
            S.check_eq(x, y, 'parameter')
    S.cover('end')


# -- the measuring loop ----------------------------------------------------------
def close(S, a, b):
    d = a - b
    return S.both(d < 0.000001, d > -0.000001)


def measure(S):
    P = S.params
    log = []
    plan = {}      # (codec, message) -> (output, what decompress returns)
    cur = [0]

    def behave(tag):
        def f(proc, hdrs):
            if hdrs is not None:
                # a codec may well modify what it is given
                if P.get('scribble'):
                    hdrs.clear()
                return plan[(tag, cur[0], proc.n - 1)][0]
            return plan[(tag, cur[0], proc.n - 1)][1]
        return f
    tags = ['base', 'stub']
    for t in tags:
        S.inject('compressor.' + t, mkstub(log, t, behave(t)))
    m = S.load('lib.processors')
    st = S.load('lib.stream')
    out = []
    o = Opts()
    o.baseline = 'base'
    o.processor_names = S.choice('order', [['base', 'stub'],
                                           ['stub', 'base']])
    o.verbose = P['verbose']
    o.debug = P['debug']
    procs = m.Processors(o, ['req', 'res'], out.append)
    sizes = {}
    for s in range(P['sessions']):
        cur[0] = s
        msgs = []
        mism = []
        kind = S.choice('kind%d' % s, ['req', 'res'])
        for i in range(P['n']):
            hd = [('a', S.atom('v%d.%d' % (s, i), 0, 50, [], '0123456789')),
                  ('connection', 'close')]
            msgs.append((S.dict(hd), 'host%d' % i))
            for t in tags:
                o_ = S.atom('o%d.%d.%s' % (s, i, t), 1, 900, [], '0123456789')
                what = 'same'
                if t in P['lossy']:
                    what = S.choice('d%d.%d.%s' % (s, i, t),
                                    ['same', 'lost', 'none', 'changed'])
                r = S.dict([hd[0]])
                if what == 'lost':
                    r = S.dict([])
                elif what == 'none':
                    r = None
                elif what == 'changed':
                    w = S.atom('w%d.%d.%s' % (s, i, t), 0, 50, [], '0123456789')
                    r = S.dict([('a', w)])
                    what = 'same' if S.truth(S.eq(w, hd[0][1])) else what
                if what in ('lost', 'changed'):
                    mism.append(t)
                plan[(t, s, i)] = (o_, r)
        ses = st.Stream('x', msgs, kind, list(o.processor_names))
        del log[:]
        del out[:]
        ended = False
        try:
            procs.process_session(ses)
        except SystemExit:
            ended = True
        if P['debug']:
            S.check(ended == (len(mism) > 0), 'debug stops on a mismatch')
            S.cover('stop' if ended else 'end')
            continue
        S.check(not ended, 'stopped without debug')
        news = [e for e in log if e[0] == 'new']
        for t in tags:
            comps = [e for e in log if e[0] == 'compress' and e[1] == t]
            S.check(len(comps) == P['n'], 'each message once')
            for i in range(P['n']):
                e = comps[i]
                S.check(e[2] is comps[0][2], 'one codec for the session')
                S.check(e[4] == 'host%d' % i, 'host, in order')
                if not P.get('scribble'):
                    S.check(len(e[3]) == 1, 'hop-by-hop headers given')
                    S.check_eq(e[3]['a'], msgs[i][0]['a'], 'headers, in '
                               'order')
                S.check(len(msgs[i][0]) == 2, 'input message changed')
            S.check(any([e[4] is comps[0][2] for e in news]),
                    'codec not fresh for the session')
            S.check(comps[0][2].is_request == (kind == 'req'), 'direction')
            S.check(len(ses.sizes[t]) == P['n'], 'sizes recorded')
            S.check(len(ses.ratios[t]) == P['n'], 'ratios recorded')
            S.check(len(ses.times[t]) == P['n'], 'times recorded')
            for i in range(P['n']):
                ln = len(plan[(t, s, i)][0])
                S.check_eq(ses.sizes[t][i], ln, 'size')
                S.check(close(S, ses.ratios[t][i],
                              1.0 * ln / len(plan[('base', s, i)][0])),
                        'ratio')
            k = len([x for x in out if 'mismatch in ' + t in x])
            if not P.get('scribble'):
                S.check(k == len([x for x in mism if x == t]),
                        'mismatches reported')
        S.cover('end')
        S.observe('m', len(mism))


# -- statistics and tables ---------------------------------------------------
def mkstream(S, st, name, tag, n, procs, hi, base, fixed=None):
    msgs = [('m%s%d' % (tag, i), 'h') for i in range(n)]
    s = st.Stream(name, msgs, 'req', procs)
    rec = {}
    for p in procs:
        rec[p] = [S.int('%s.%s.%d' % (tag, p, i), 1, hi) for i in range(n)]
        if p == base and fixed:
            rec[p] = fixed
    for i in range(n):
        for p in procs:
            s.record_result(p, rec[p][i], 1.0 * rec[p][i] / rec[base][i],
                            0.25)
    return s, msgs, rec


def total(S):
    """Adding streams up: everything once, the parts untouched."""
    P = S.params
    st = S.load('lib.stream')
    procs = ['base', 'x']
    ss, ms, rs = [], [], []
    for k in range(len(P['ns'])):
        s, m, r = mkstream(S, st, 's%d' % k, 's%d' % k, P['ns'][k], procs,
                           5000, 'base')
        ss.append(s)
        ms.append(list(m))
        rs.append(r)
    t = ss[0]
    for s in ss[1:]:
        t = t + s
    if P.get('radd'):
        t = sum(ss)
    allm = []
    for m in ms:
        allm = allm + m
    S.check(list(t.messages) == allm, 'messages of the total')
    S.check(t.msg_type == 'req', 'direction of the total')
    for p in procs:
        want = []
        for r in rs:
            want = want + r[p]
        S.check(len(t.sizes[p]) == len(want), 'sizes in the total')
        S.check(len(t.ratios[p]) == len(want), 'ratios in the total')
        S.check(len(t.times[p]) == len(want), 'times in the total')
        for a, b in zip(t.sizes[p], want):
            S.check_eq(a, b, 'size in the total')
    for k in range(len(ss)):
        S.check(ss[k].name == 's%d' % k, 'a part was renamed')
        S.check(list(ss[k].messages) == ms[k], 'a part was changed')
        for p in procs:
            S.check(len(ss[k].sizes[p]) == len(rs[k][p]),
                    'a part was changed')
    S.cover('end')


def words(s):
    return [w for w in s.split(' ') if w != '' and w != '\n']


def summary(S):
    """The printed line of a codec shows its totals."""
    P = S.params
    st = S.load('lib.stream')
    procs = ['base', 'x']
    n = P['n']
    s, msgs, rec = mkstream(S, st, 'nm', 's', n, procs, P['hi'], 'base',
                            P.get('fixed'))
    out = []
    s.print_summary(out.append, 'base')
    text = ''.join(out)
    tb = 0
    for v in rec['base']:
        tb = tb + v
    for p in procs:
        row = None
        for ln in text.split('\n'):
            w = words(ln)
            if w and w[0] == p:
                S.check(row is None, 'one line per codec')
                row = w
        S.check(row is not None, 'a line per codec')
        tot = 0
        for v in rec[p]:
            tot = tot + v
        rats = [1.0 * a / b for a, b in zip(rec[p], rec['base'])]
        mn = mx = rats[0]
        for r in rats[1:]:
            if S.truth(r < mn):
                mn = r
            if S.truth(r > mx):
                mx = r
        S.check_eq(row[1], '%d' % tot, 'total size')
        S.check_eq(row[2], '%.2f' % (0.25 * n), 'total time')
        S.check(row[3] == '|', 'layout')
        S.check_eq(row[4], '%.2f' % (1.0 * tot / tb), 'overall ratio')
        S.check_eq(row[5], '%.2f' % mn, 'smallest ratio')
        S.check_eq(row[6], '%.2f' % mx, 'largest ratio')
        if n == 1:
            S.check_eq(row[7], '0.00', 'deviation of one')
        S.observe(p, row[4])
    S.cover('end')


def spread(S):
    """The printed deviation, on given ratios."""
    st = S.load('lib.stream')
    s = st.Stream('nm', [({}, 'h')] * 2, 'req', ['base', 'x'])
    a = S.choice('a', [10, 20, 35])
    b = S.choice('b', [10, 11, 20, 90])
    for v in (a, b):
        s.record_result('base', 20, 1.0, 0.25)
        s.record_result('x', v, 1.0 * v / 20, 0.25)
    out = []
    s.print_summary(out.append, 'base')
    row = [words(ln) for ln in ''.join(out).split('\n')
           if words(ln)[:1] == ['x']][0]
    n = int(row[7].replace('.', ''))
    # 100 * |a - b| / 20 / sqrt(2), squared
    S.check((2 * n - 1) ** 2 <= 50 * (a - b) ** 2 <= (2 * n + 1) ** 2 or
            (n == 0 and a == b), 'deviation')
    S.cover('end')


def deviation(S):
    P = S.params
    st = S.load('lib.stream')
    n = P['n']
    xs = [S.int('x%d' % i, 0, P['hi']) for i in range(n)]
    mean, std = st.meanstdv([1.0 * x for x in xs])
    tot = 0
    for x in xs:
        tot = tot + x
    S.check(close(S, mean * n, tot), 'mean')
    sq = 0
    for x in xs:
        sq = sq + (x * n - tot) * (x * n - tot)
    # std**2 == sum((x - mean)**2) / (n - 1)
    S.check(close(S, (std ** 2) * (n * n * (n - 1)), sq), 'deviation')
    S.cover('end')


def tsv(S):
    P = S.params
    st = S.load('lib.stream')
    procs = ['base', 'x']
    out = []
    hd = []
    count = S.int('count', 0, 50) if P['count'] else 0
    c = count
    want = ''
    ss = []
    for k in range(P['streams']):
        s, msgs, rec = mkstream(S, st, 'nm%d' % k, 's%d' % k, P['n'], procs,
                                P['hi'], 'base')
        ss.append(s)
        if k == 0:
            s.print_tsv_header(hd.append)
        c = s.print_tsv(out.append, c)
        for i in range(P['n']):
            want = want + '\t'.join(
                [str(count + k * P['n'] + i + 1), 'nm%d' % k,
                 str(rec['base'][i]), str(rec['x'][i])]) + '\n'
    S.check_eq(''.join(out), want, 'rows')
    S.check(c == count + P['n'] * P['streams'], 'running number')
    S.check(''.join(hd) == 'num\tname\tbase\tx\n', 'heading')
    S.cover('end')


# -- the whole tool -----------------------------------------------------------
class File(object):
    def __init__(self, name):
        self.name = name
        self.text = ''
        self.closed = False

    def write(self, s):
        self.text = self.text + s

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def end2end(S):
    """Run over HAR files with stand-in codecs: the tables written must be
    the sizes the codecs produced, in the order of the streams."""
    P = S.params
    log = []
    made = {}

    def behave(tag):
        def f(proc, hdrs):
            if hdrs is None:
                return proc.last
            proc.last = hdrs
            o = made[(tag, hdrs['id'])]
            return o
        return f
    for t in ('http1', 'stub'):
        S.inject('compressor.' + t, mkstub(log, t, behave(t)))
    hars, flat = {}, []
    k = 0
    for f in range(len(P['files'])):
        reqs, ress = [], []
        for i in range(P['files'][f]):
            h = S.choice('host%d' % k, P['hosts'])
            reqs.append(S.dict([(':host', h), ('id', 'q%d' % k)]))
            ress.append(S.dict([('id', 's%d' % k)]))
            flat.append((f, h, k))
            for t in ('http1', 'stub'):
                for d in 'qs':
                    made[(t, '%s%d' % (d, k))] = S.atom(
                        'o.%s.%s%d' % (t, d, k), 1, P['hi'], [], VIS) \
                        if t != 'http1' or not P['fixed'] else \
                        '0' * (3 + k * 2 + 'qs'.index(d))
            k = k + 1
        hars['f%d' % f] = (reqs, ress)
    S.inject('lib.harfile', {'read_har_file': lambda fn: hars[fn]})
    m = S.load('compare_compressors', fresh=True)
    opened = []

    def fopen(name, mode='r'):
        x = File(name)
        opened.append(x)
        return x
    m.open = fopen
    o = Opts()
    o.baseline = P['baseline']
    o.processor_names = list(P['codecs'])
    o.streamifier = P['streamifier']
    o.tsv = True
    o.prefix = 'pre-'
    o.verbose = P['verbose']

    class Tester(m.CompressionTester):
        def parse_options(self):
            return o, ['f%d' % f for f in range(len(P['files']))]
    out = []
    Tester(out.append)
    codecs = list(P['codecs'])
    if 'http1' not in codecs:
        codecs = ['http1'] + codecs
    # the streams, in order: per file, per group of first appearance
    order = []
    for f in range(len(P['files'])):
        seen = []
        for g, h, i in flat:
            if g == f:
                key = 'all' if P['streamifier'] == 'all_one' else h
                if key not in seen:
                    seen.append(key)
        for key in seen:
            order.append((key, [i for g, h, i in flat if g == f and
                                (key == 'all' or h == key)]))
    S.check(len(opened) == 2, 'two tables')
    for d, nm in (('q', 'req'), ('s', 'res')):
        want = 'num\tname\t' + '\t'.join(codecs) + '\n'
        n = 0
        for key, idx in order:
            for i in idx:
                n = n + 1
                want = want + '%d\t%s' % (n, key)
                for t in codecs:
                    want = want + '\t' + str(
                        len(made[(t, '%s%d' % (d, i))]))
                want = want + '\n'
        x = [y for y in opened if y.name == 'pre-%s.tsv' % nm]
        S.check(len(x) == 1, 'table file')
        S.check(x[0].closed, 'table not closed')
        S.check_eq(x[0].text, want, 'table')
    heads = [x for x in out if x[:1] == '*']
    tot = [x for x in heads if 'TOTAL' in x]
    S.check(tot == ['* TOTAL: %d req messages\n' % len(flat),
                    '* TOTAL: %d res messages\n' % len(flat)],
            'totals count every message')
    text = ''.join(out)
    text = text[text.find('* TOTAL'):]
    for d in 'qs':
        for t in codecs:
            sz = 0
            for f, h, i in flat:
                sz = sz + len(made[(t, '%s%d' % (d, i))])
            rows = [w for w in [words(x) for x in text.split('\n')]
                    if w and w[0] == t]
            S.check(len(rows) == 2, 'a summary line per codec')
            S.check_eq(rows['qs'.index(d)][1], '%d' % sz, 'total size')
    S.cover('end')
