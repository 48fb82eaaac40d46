"""Plants a bug in a scratch copy and files it under /verif/seeded/<id>/.

seed(id, prop, edits, demo, needs, breaks, files={}): edits is a list of
(file, old, new); demo is the text of demo.sh.  The copy is built, its stable
tests and the demonstration are run both ways, and the check of the property
is run against the change."""
import json
import os
import re
import shutil
import subprocess
import sys

V = '/verif'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def seed(id, prop, edits, demo, needs, breaks, files=None, check=True,
         tests=True):
    d = V + '/seeded/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = '/tmp/seed-' + id
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a /repo ' + w)
    try:
        for f, old, new in edits:
            s = open(w + '/' + f, newline='').read()
            if '\r\n' in s:
                old, new = (x.replace('\r\n', '\n').replace('\n', '\r\n')
                            for x in (old, new))
            if s.count(old) != 1:
                print(id, 'edit matches', s.count(old), 'times in', f)
                return
            open(w + '/' + f, 'w', newline='').write(s.replace(old, new))
        p = sh('git -C %s diff' % w).stdout
        open(d + '/patch.diff', 'w', newline='').write(
            subprocess.run(['git', '-C', w, 'diff'],
                           stdout=subprocess.PIPE).stdout.decode('latin-1')
            if False else p)
        with open(d + '/patch.diff', 'wb') as f:
            f.write(subprocess.run(['git', '-C', w, 'diff'],
                                   stdout=subprocess.PIPE).stdout)
        open(d + '/demo.sh', 'w').write(demo)
        for n, t in (files or {}).items():
            open(d + '/' + n, 'w').write(t)
        json.dump({'property': prop, 'needs': needs,
                   'what_it_breaks': breaks},
                  open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        r = sh('git -C /repo apply --check %s/patch.diff' % d)
        print(id, 'applies:', r.returncode == 0, 'demo clean rc', a.returncode)
        if a.returncode:
            print(a.stdout[-1500:])
        sh('git -C /repo apply %s/patch.diff' % d)
        try:
            if tests:
                b = sh('bash /opt/vp/build.sh')
                t = sh('bash /opt/vp/test.sh /tmp/seedout.json')
                o = json.load(open('/tmp/seedout.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                print('  build', b.returncode, 'tests', str(
                    {k: (len(v) if isinstance(v, list) else v)
                     for k, v in o.items()})[:200])
            b = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
            print('  demo with bug rc', b.returncode,
                  b.stdout.strip()[-200:])
            if check:
                c = sh('%s/run_check.py %s quick' % (V, prop), cwd=V,
                       timeout=1500)
                print('  check rc', c.returncode,
                      '\n    '.join(c.stdout.strip().splitlines()[-4:])[:900])
        finally:
            sh('git -C /repo checkout -- .')
            if tests:
                sh('bash /opt/vp/build.sh')
    finally:
        shutil.rmtree(w, ignore_errors=True)


JY = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export JYTHONPATH=/opt/jylib PYTHONDONTWRITEBYTECODE=1
exec timeout 200 jython -B "$here/demo.py"
'''
PY3 = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/venv/bin/python -B "$here/demo.py"
'''
