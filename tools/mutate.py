#!/usr/bin/python3
"""Mutates the functions a check encoded (see its evidence) and runs the check
on each mutant, in scratch copies.  mutate.py PID N [seed] [file substring]"""
import io, json, os, random, re, shutil, subprocess, sys, tokenize
from concurrent.futures import ThreadPoolExecutor
import threading

PID, N = sys.argv[1], int(sys.argv[2])
random.seed(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
ONLY = sys.argv[4] if len(sys.argv) > 4 else ''
W = int(os.environ.get('W', 4))
J = os.environ.get('J', '2')
BASE = '/tmp/mut'
OPS = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='],
       '!=': ['=='], '+': ['-'], '-': ['+'], 'and': ['or'], 'or': ['and'],
       'not': [''], 'True': ['False'], 'False': ['True'], '+=': ['-=', '='],
       '-=': ['+='], 'break': ['continue', 'pass'], 'continue': ['break', 'pass'],
       'min': ['max'], 'max': ['min'], '<<': ['>>'], '>>': ['<<'],
       '|': ['&'], '&': ['|'], '*': ['+'], '/': ['*'], 'in': ['not in'],
       'append': ['remove'], 'add': ['discard'], 'is': ['is not'],
       'any': ['all'], 'all': ['any'], 'sorted': ['list'], 'lower': ['upper']}


def functions(path):
    """name -> (first, last) by indentation."""
    lines = open(path, encoding='latin-1').read().split('\n')
    stack, out = [], []
    for i, l in enumerate(lines):
        if not l.strip() or l.strip().startswith('#'):
            continue
        ind = len(l) - len(l.lstrip())
        while stack and ind <= stack[-1][0] and not l.strip().startswith(')'):
            s = stack.pop()
            out.append((s[1], s[2], i - 1))
        m = re.match(r'\s*(def|class)\s+(\w+)', l)
        if m:
            q = (stack[-1][1] + '.' if stack else '') + m.group(2)
            stack.append((ind, q, i))
    while stack:
        s = stack.pop()
        out.append((s[1], s[2], len(lines) - 1))
    return out, lines


def mutants(path, names):
    fs, lines = functions(path)
    ok = set()
    for q, a, b in fs:
        if q in names:
            ok.update(range(a, b + 1))
    for q, a, b in fs:
        if q not in names:
            inner = set(range(a, b + 1))
            # nested functions not encoded, and class headers
            if any(q.startswith(n + '.') for n in names):
                ok -= inner
    src = '\n'.join(lines)
    res = []
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except Exception as e:
        print('tokenize', path, e)
        return []
    doc = set()
    start = None
    first = True
    logical = []
    cur = []
    for t in toks:
        if t.type in (tokenize.COMMENT, tokenize.NL, tokenize.INDENT,
                      tokenize.DEDENT):
            continue
        if t.type == tokenize.NEWLINE:
            if cur:
                logical.append(cur)
            cur = []
            continue
        cur.append(t)
    for l in logical:
        if l[0].type == tokenize.STRING and len(l) == 1:
            continue
        if l[0].string in ('def', 'class', 'import', 'from', 'print', '@'):
            continue
        if l[0].start[0] - 1 not in ok:
            continue
        head = l[0].string
        if head not in ('if', 'for', 'while', 'else', 'elif', 'try', 'except',
                        'with', 'finally', 'global', 'pass', 'raise') \
                and l[-1].string != ':':
            res.append((l[0].start, l[-1].end, 'pass'))
        if head in ('if', 'elif', 'while') and l[-1].string == ':':
            res.append((l[0].end, l[-1].start, ' False'))
            if head != 'while':
                res.append((l[0].end, l[-1].start, ' True'))
        for t in l:
            if t.type in (tokenize.OP, tokenize.NAME):
                for r in OPS.get(t.string, []):
                    res.append((t.start, t.end, r))
            elif t.type == tokenize.NUMBER and re.match(r'^(0x)?[0-9a-fA-F]+$',
                                                        t.string):
                v = int(t.string, 0)
                res.append((t.start, t.end, str(v + 1)))
                if v:
                    res.append((t.start, t.end, str(v - 1)))
    out = []
    for a, b, r in res:
        ls = list(lines)
        if a[0] == b[0]:
            l = ls[a[0] - 1]
            ls[a[0] - 1] = l[:a[1]] + r + l[b[1]:]
        else:
            l = ls[a[0] - 1][:a[1]] + r + ls[b[0] - 1][b[1]:]
            ls[a[0] - 1:b[0]] = [l]
        out.append((a[0], lines[a[0] - 1].strip(),
                    ls[a[0] - 1].strip(), '\n'.join(ls)))
    return out


def main():
    ev = json.load(open('/verif/evidence/%s.json' % PID))
    fns = ev['coverage']['functions_encoded']
    mods = {}
    for f in fns:
        m, q = f.split(':')
        mods.setdefault(m, set()).add(q)
    allm = []
    want = os.environ.get('LINE')
    for m, names in mods.items():
        p = m.replace('.', '/')
        for c in (p + '.py', p + '/__init__.py') + tuple(
                'compressor/%s/%s.py' % (d, p) for d in
                ('bohe', 'delta_bohe', 'delta2_bohe')):
            if os.path.exists('/repo/' + c):
                break
        else:
            print('no file for', m)
            continue
        if 'freq_table' in c or ONLY not in c:
            continue
        allm += [(c,) + x for x in mutants('/repo/' + c, names)]
    if want:
        allm = [x for x in allm if str(x[1]) in want.split(',')]
    random.shuffle(allm)
    print(len(allm), 'mutants; running', min(N, len(allm)))
    pick = allm[:N]
    free = list(range(W))
    lock = threading.Lock()
    for w in free:
        d = '%s/v%d' % (BASE, w)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/verif', d, ignore=shutil.ignore_patterns(
            '.git', 'seeded', 'replays', 'evidence'))
        d = '%s/r%d' % (BASE, w)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    counts = {}

    def run(mu):
        c, line, old, new, text = mu
        with lock:
            w = free.pop()
        try:
            f = '%s/r%d/%s' % (BASE, w, c)
            orig = open(f, encoding='latin-1').read()
            open(f, 'w', encoding='latin-1').write(text)
            try:
                p = subprocess.run(
                    ['./run_check.py', PID, 'quick', '-j', J],
                    cwd='%s/v%d' % (BASE, w), stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, timeout=600,
                    env=dict(os.environ, VERIF_REPO='%s/r%d' % (BASE, w),
                             VERIF_SEED='1', VERIF_TIER='quick'))
                rc, o = p.returncode, p.stdout.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired as e:
                rc, o = 'timeout', ''
            open(f, 'w', encoding='latin-1').write(orig)
        finally:
            with lock:
                free.append(w)
        with lock:
            counts[rc] = counts.get(rc, 0) + 1
            if rc != 1:
                err = ''
                if rc == 2:
                    err = ' ## ' + ' '.join(
                        [x[:200] for x in o.split('\n')
                         if x.startswith('ERROR')][:1])
                print('rc=%s %s:%d\n    - %s\n    + %s%s' % (
                    rc, c, line, old, new, err), flush=True)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(run, pick))
    print(PID, counts)


main()
