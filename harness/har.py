"""HAR files to header sets (lib/harfile.py)."""

VIS = ''.join([chr(c) for c in range(33, 127)])
URLC = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
        '-._~%!$&()*+,;=:@')
PHRASES = {200: 'OK', 204: 'No Content', 301: 'Moved Permanently',
           304: 'Not Modified', 404: 'Not Found',
           500: 'Internal Server Error'}


def phrase(code):
    return PHRASES.get(code, 'unknown')


def mkheaders(S, tag, P):
    out = []
    if P['side'] not in tag:
        return out
    for i in range(P['n']):
        if P.get('names'):
            nm = S.choice('%s.n%d' % (tag, i), P['names'])
        else:
            nm = S.str('%s.n%d' % (tag, i), P['nlen'], P['nalpha'])
        out.append((nm, S.atom('%s.v%d' % (tag, i), 0, 400, [], VIS + ' ')))
    return out


def expect(S, raw):
    """[(name, value)] with repeats joined by NUL, in order."""
    out = []
    for nm, v in raw:
        k = nm.lower()
        if S.truth(S.eq(k, 'host')):
            k = ':host'
        for e in out:
            if S.truth(S.eq(e[0], k)):
                e[1] = e[1] + '\0' + v
                break
        else:
            out.append([k, v])
    return out


def verify(S, got, want, what):
    for k, v in want:
        S.check(k in got, what + ' header lost')
        S.check_eq(got[k], v, what + ' header value')
    S.check(len(got) == len(want), what + ' header invented')


def har(S):
    P = S.params
    m = S.load('lib.harfile')
    entries = []
    wants = []
    for e in range(P['entries']):
        t = 'e%d' % e
        scheme = S.choice(t + '.scheme', P['schemes'])
        netloc = S.atom(t + '.netloc', 1, 60, [], URLC)
        haspath, path = S.choice(t + '.haspath', P['opt']), ''
        if haspath:
            path = '/' + S.atom(t + '.path', 0, 300, [], URLC + '/')
        query = None
        if S.choice(t + '.hasquery', P['opt']):
            query = S.atom(t + '.query', 0, 300, [], URLC + '/?')
        url = scheme + '://' + netloc + path
        if query is not None:
            url = url + '?' + query
        if S.choice(t + '.hasfrag', P['opt']):
            url = url + '#' + S.atom(t + '.frag', 0, 30, [], URLC + '/?')
        rq = mkheaders(S, t + 'q', P)
        rs = mkheaders(S, t + 's', P)
        meth = S.choice(t + '.method', P['methods'])
        qver = S.atom(t + '.qv', 0, 10, [], VIS)
        sver = S.atom(t + '.sv', 0, 10, [], VIS)
        if P['status'] == 'any':
            status = S.int(t + '.status', 100, 999)
        else:
            status = S.choice(t + '.status', P['status'])
        text = S.choice(t + '.text', P['texts'])
        entries.append(S.dict([
            ('request', S.dict([
                ('url', url), ('method', meth), ('httpVersion', qver),
                ('headers', [S.dict([('name', a), ('value', b)])
                             for a, b in rq])])),
            ('response', S.dict([
                ('status', status), ('statusText', text),
                ('httpVersion', sver),
                ('headers', [S.dict([('name', a), ('value', b)])
                             for a, b in rs])]))]))
        if scheme.lower() not in ('http', 'https'):
            continue
        wq = expect(S, rq)
        hashost = False
        for k, v in wq:
            if S.truth(S.eq(k, ':host')):
                hashost = True
        if not hashost:
            wq.append([':host', netloc])
        p = path if haspath else '/'
        if query is not None and S.truth(len(query) > 0):
            p = p + '?' + query
        wq += [[':method', meth.lower()], [':path', p],
               [':scheme', scheme.lower()], [':version', qver]]
        ws = expect(S, rs)
        code = status if not isinstance(status, str) else int(status[:3])
        ws += [[':status', str(code)],
               [':status-text', text.strip() or phrase(code)],
               [':version', sver]]
        wants.append((wq, ws))
    reqs, ress = m.har2hdrs(S.dict([('log', S.dict([('entries',
                                                     entries)]))]))
    S.check(len(reqs) == len(wants), 'one request per web entry')
    S.check(len(ress) == len(wants), 'one response per web entry')
    for i in range(len(wants)):
        verify(S, reqs[i], wants[i][0], 'request')
        verify(S, ress[i], wants[i][1], 'response')
        S.observe('rq%d' % i, dict([(k, reqs[i][k])
                                    for k in (':path', ':host')]))
    S.cover('end')
