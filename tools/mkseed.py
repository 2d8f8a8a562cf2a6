#!/usr/bin/env python3
"""tools/mkseed.py FILE...: makes /verif/seeded/<id>/ from seed descriptions (python files defining SEEDS) after confirming each in a scratch copy"""
import sys, os, subprocess, json, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = '. /opt/vp/env.sh; '
DEMO = '''#!/bin/bash
# run in the repository; nonzero when the property is broken
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$r/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/overlay.json"
timeout 200 go test -vet=off -count=1 -overlay "$t/overlay.json" -run 'TestDemo' ./%(pkg)s
'''


def sh(c, cwd=None):
    return subprocess.run(['bash', '-c', ENV + c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def main():
    only = [a for a in sys.argv[1:] if not a.endswith('.py')]
    for f in [a for a in sys.argv[1:] if a.endswith('.py')]:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns['SEEDS']:
            if only and s['id'] not in only:
                continue
            one(s)


def one(s):
    w = tempfile.mkdtemp(prefix='seed-')
    r = w + '/repo'
    sh('cp -a /repo %s' % r)
    sh('git checkout -q -- . && git clean -fdq', r)
    try:
        for file, old, new in s['edits']:
            p = os.path.join(r, file)
            src = open(p).read()
            if src.count(old) != 1:
                print(s['id'], 'EDIT does not match once:', file, src.count(old), old[:60])
                return
            open(p, 'w').write(src.replace(old, new))
        diff = sh('git diff', r).stdout.decode()
        b = sh('go build ./... && go vet ./... >/dev/null 2>&1; go build ./...', r)
        if b.returncode:
            print(s['id'], 'does not build', b.stdout.decode()[-500:])
            return
        t = sh('go test -vet=off -count=1 $(go list ./... | grep -v -e cli/receiver$ -e cli/receiver/server$) 2>&1', r)
        base = json.load(open('/opt/vp/BASELINE.json'))
        if t.returncode:
            print(s['id'], 'tests fail:', t.stdout.decode()[-800:])
            return
        d = w + '/demo'
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write(s.get('demo') or DEMO % dict(pkg=s['pkg']))
        for n, c in (s.get('files') or {'demo_test.go': s['test']}).items():
            open(d + '/' + n, 'w').write(c)
        bad = sh('bash %s/demo.sh' % d, r)
        good = sh('bash %s/demo.sh' % d, '/repo')
        if good.returncode != 0 or bad.returncode == 0:
            print(s['id'], 'DEMO good=%d bad=%d' % (good.returncode, bad.returncode), good.stdout.decode()[-600:], bad.stdout.decode()[-300:])
            return
        o = HERE + '/seeded/' + s['id']
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(d, o)
        open(o + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
        print(s['id'], 'ok', bad.stdout.decode().strip().split('\n')[0:3])
    finally:
        shutil.rmtree(w, ignore_errors=True)


main()
