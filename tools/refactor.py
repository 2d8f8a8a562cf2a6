#!/usr/bin/env python3
"""tools/refactor.py [IDS]: edits that keep the behaviour (tools/refactors/*.py: REFACTORS = [dict(id, props, edits)]); the checks have to stay quiet"""
import sys, os, subprocess, shutil, tempfile, glob, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd=None, env=None):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)



def sub(t, old):
    """the text itself, when it only differs in how the letters are composed"""
    import re
    m = re.search('(?:%s)' % re.escape(old).replace('й', '(?:й|и\u0306)'), t)
    return m.group(0) if m else old


for f in sorted(glob.glob(HERE + '/tools/refactors/*.py')):
    ns = {}
    exec(open(f).read(), ns)
    for s in ns['REFACTORS']:
        if sys.argv[1:] and not any(s['id'].startswith(a) for a in sys.argv[1:]):
            continue
        w = tempfile.mkdtemp(prefix='refac-')
        sh('cp -a /repo %s/repo; git -C %s/repo checkout -q -- .; mkdir %s/verif; cd %s; tar c --exclude=.git --exclude=seeded . | tar x -C %s/verif' % (w, w, w, HERE, w))
        ok = True
        for file, old, new in s['edits']:
            p = w + '/repo/' + file
            t = open(p).read()
            old = sub(t, old)
            if t.count(old) < 1:
                print(s['id'], 'NO MATCH', old[:60])
                ok = False
                break
            open(p, 'w').write(t.replace(old, new))
        if ok:
            b = sh('go build ./... && go test -vet=off -count=1 $(go list ./... | grep -v -e cli/receiver$ -e cli/receiver/server$)', w + '/repo')
            if b.returncode:
                print(s['id'], 'BUILD/TEST', b.stdout.decode()[-600:])
                ok = False
        if ok:
            for p in s['props']:
                e = dict(os.environ, VERIF_REPO=w + '/repo')
                t0 = time.time()
                r = sh('timeout 900 python3-vt check.py %s' % p, w + '/verif', e)
                o = r.stdout.decode()
                print(s['id'], p, 'quiet' if r.returncode == 0 else 'ALARM rc=%d' % r.returncode, '%ds' % (time.time() - t0),
                      '' if r.returncode == 0 else '\n'.join(l for l in o.split('\n') if 'VIOLATION' in l or 'failing' in l or 'not discharged' in l or 'Unsupported' in l or 'FAIL' in l)[:900], flush=True)
        shutil.rmtree(w, ignore_errors=True)
