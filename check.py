#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]   |   check.py --replay FILE"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json, time, tempfile, shutil, subprocess, re, glob, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
from driver import *
import props

REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def vc_package(vc):
    """'egts.VC_x' -> contracts directory"""
    name = vc.split('.')[-1]
    for d, fs in contract_files().items():
        for f in fs:
            if re.search(r'^func %s\(' % re.escape(name), open(f).read(), re.M):
                return d
    return None


def mined(repo):
    ints, strs = set(), set()
    for root, ds, fs in os.walk(repo):
        ds[:] = [d for d in ds if not d.startswith('.') and d != 'vendor']
        for f in fs:
            if f.endswith('.go') and not f.endswith('_test.go') and not f.endswith('.pb.go'):
                src = re.sub(r'//.*', '', open(os.path.join(root, f), errors='replace').read())
                for m in re.findall(r'(?<![\w.])(0x[0-9a-fA-F]+|\d{1,18})(?![\w.])', src):
                    try:
                        ints.add(int(m, 0))
                    except ValueError:
                        pass
                for m in re.findall(r'"([^"\\\n]{0,40})"', src):
                    strs.add(m)
    return sorted(i for i in ints if i < 1 << 62)[:400], sorted(strs)[:400]


class Native:
    """the contracts, compiled and run against the real code"""

    def __init__(self, repo, tmp):
        self.repo, self.tmp = repo, tmp
        self.bins = {}
        self.err = {}
        self.consts = None

    def binary(self, d):
        if d in self.bins:
            return self.bins[d]
        ov = os.path.join(self.tmp, 'test-overlay.json')
        if not os.path.exists(ov):
            json.dump(overlay(self.repo, True, self.tmp), open(ov, 'w'))
        b = os.path.join(self.tmp, 'drive-' + d)
        r = sh('cd %s && go test -c -tags verif -vet=off -overlay %s -o %s ./%s' % (self.repo, ov, b, PKGDIR[d]))
        self.bins[d] = b if r.returncode == 0 and os.path.exists(b) else None
        if self.bins[d] is None:
            self.err[d] = r.stdout.decode(errors='replace')[-1500:]
        return self.bins[d]

    def run(self, d, job, n=1, slack=60):
        """runs n copies with different seeds; first hit or merged counts"""
        b = self.binary(d)
        if not b:
            return None
        if self.consts is None:
            self.consts = mined(self.repo)
        procs = []
        for i in range(n):
            j = dict(job)
            j['seed'] = job.get('seed', 1) * 1000 + i
            j['consts'], j['strs'] = self.consts
            wd = tempfile.mkdtemp(dir=self.tmp)
            j['out'] = os.path.join(wd, 'out.json')
            if i:
                j['given'] = []
            jf = os.path.join(wd, 'job.json')
            json.dump(j, open(jf, 'w'))
            env = dict(os.environ, VERIF_JOB=jf, HOME=wd, GOMEMLIMIT='2GiB')
            lg = open(os.path.join(wd, 'log'), 'wb')
            procs.append((subprocess.Popen([b, '-test.run', 'TestVerifDrive$', '-test.timeout', '0'], cwd=wd, env=env, stdout=lg, stderr=subprocess.STDOUT, start_new_session=True), j['out'], wd, j))
        end = time.time() + job.get('seconds', 0) + slack
        hit, runs, skips, valid, crashed = None, 0, 0, {}, None
        live = list(procs)
        while live:
            for x in list(live):
                p, o, wd, j = x
                if p.poll() is None:
                    continue
                live.remove(x)
                try:
                    r = json.load(open(o))
                    runs += r['runs']
                    skips += r['skips']
                    for k, v in (r.get('valid') or {}).items():
                        valid[k] = valid.get(k, 0) + v
                    if r['hit'] and not hit:
                        hit = r
                except Exception:
                    crashed = open(os.path.join(wd, 'log'), errors='replace').read()[-3000:]
            if hit or time.time() > end:
                for x in live:
                    try:
                        os.killpg(x[0].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    x[0].wait()
                break
            time.sleep(0.05)
        return dict(hit=hit, runs=runs, skips=skips, valid=valid, crashed=crashed)


def search(nat, failures, vcs, labels, seconds, seed):
    """counterexamples of the verifier first, then a guided search, on the real code"""
    info = []
    byd = {}
    for vc in vcs:
        d = vc_package(vc)
        if d:
            byd.setdefault(d, []).append(vc.split('.')[-1])
    failing = [f['vc'].split('.')[-1] for f in failures]
    order = sorted(byd, key=lambda d: -sum(1 for v in byd[d] if v in failing))
    for stage in (0, 1):
        for d in order:
            names = [v for v in byd[d] if v in failing] if stage == 0 else byd[d]
            if not names:
                continue
            if stage == 1 and set(names) == set(v for v in byd[d] if v in failing):
                continue
            given = [dict(vc=f['vc'].split('.')[-1], args=f['args']) for f in failures if f.get('args')] if stage == 0 else []
            r = nat.run(d, dict(vcs=names, labels=labels, seed=seed, seconds=seconds if stage == 0 else seconds / 3, given=given), n=8)
            if r is None:
                info.append('native build failed: ' + nat.err.get(d, '')[-600:])
                continue
            info.append('%s: %d runs (%d outside preconditions)' % (d, r['runs'], r['skips']))
            if r['hit']:
                h = r['hit']
                h['package'] = d
                return h, info
            if r['crashed']:
                info.append('a run crashed: ' + r['crashed'][-400:])
    return None, info


def known():
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) label=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def main():
    t0 = time.time()
    if '--replay' in sys.argv:
        return replay(sys.argv[sys.argv.index('--replay') + 1])
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    spec = props.PROPS[pid]
    select({v.split('.')[0] for v in spec['vcs']})
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return check(pid, tier, spec, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, spec, tmp, t0):
    labels = spec['labels']
    budget = 420 if tier == 'quick' else 3000
    failures = []
    results = []
    names = []
    try:
        js = extract(REPO, tmp)
        P = Program(js)
        allvc = sorted(f for f in P.funcs if re.search(r'\.VC_\w+$', f))
        names = [f for f in allvc if matches(short(f), spec['vcs'])]
        jobs = [(n, labels) for n in names]
        hints = spec.get('heavy', ['SrAdSensorsData_Decode', 'TermIdentity_Encode', 'SrAuthInfo_roundtrip', 'RecordDataSet_Decode', 'ServiceDataSet_Encode', 'ServiceDataSet_Decode', 'Package_Decode'])
        jobs.sort(key=lambda j: ([i for i, h in enumerate(hints) if h in j[0]] or [99])[0])
        results = run_contracts(P, jobs, tmp, t0 + budget)
    except BuildError as e:
        failures.append(dict(vc='-', label='build', kind='build', where='', fn='', text='the contracts no longer fit the code: ' + str(e), status='build error', args=None))
        for d, fs in contract_files().items():
            for f in fs:
                names += ['%s.%s' % (d, n) for n in re.findall(r'^func (VC_\w+)\(', open(f).read(), re.M)]
        names = [n for n in names if matches(n, spec['vcs'])]
    used = {}
    for r in results:
        if r.get('error'):
            failures.append(dict(vc=r['vc'], label='verifier', kind='unsupported', where='', fn='', text=r['error'], status='no proof', args=None))
            continue
        used[r['vc']] = r['total']
        for f in r['failed']:
            failures.append(dict(f, vc=r['vc']))
        for lab, st, where in r['covers']:
            if st == 'unsat':
                failures.append(dict(vc=r['vc'], label=lab, kind='vacuous', where=where, fn='', text='the situation the contract is about cannot occur any more', status='unsat', args=None))
    total = sum(r.get('total', 0) for r in results)
    if not failures and total == 0:
        failures.append(dict(vc='-', label='none', kind='vacuous', where='', fn='', text='no obligation was generated', status='', args=None))
    kn = [k for k in known() if k[0] == pid]
    listed = [f for f in failures if any(f['label'] == k[1] for k in kn)]
    failures = [f for f in failures if f not in listed]
    nat = Native(REPO, tmp)
    vio = None
    native_info = []
    if failures:
        secs = 60 if tier == 'quick' else 240
        hit, native_info = search(nat, failures, [short(n) for n in names], labels + spec.get('native', []), secs, SEED)
        vio = report(pid, tier, failures, hit, native_info)
    elif tier == 'thorough':
        # the same contracts, executed: cross-check of the verifier's models of the libraries
        hit, native_info = search(nat, [dict(vc=short(n)) for n in names], [short(n) for n in names], labels, 120, SEED)
        if hit:
            failures = [dict(vc=hit['vc'], label=hit['label'], kind='native', where='', fn='', text='found by execution', status='native', args=None)]
            vio = report(pid, tier, failures, hit, native_info)
    evidence(pid, tier, spec, results, failures, listed, native_info, t0)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    if vio:
        print(vio)
        return 1
    print('%s: %d obligations discharged, %d contracts, %.1f s' % (pid, total, len(results), time.time() - t0))
    return 0


def report(pid, tier, failures, hit, info):
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    path = os.path.join(HERE, 'replay', pid + '.json')
    rep = dict(property=pid, tier=tier, failed_obligations=[{k: v for k, v in f.items()} for f in failures[:20]], more=max(0, len(failures) - 20), search=info)
    if hit:
        rep['failing_input'] = hit
        rep['replay_cmd'] = 'python3-vt /verif/check.py --replay ' + path
    json.dump(rep, open(path, 'w'), indent=1, ensure_ascii=False)
    for f in failures[:5]:
        print('failed obligation: %s [%s] %s %s: %s (%s)' % (f['label'], f['kind'], f['vc'], f['where'], f['text'][:200], f['status']))
    if hit:
        print('failing input: %s%s -> %s %s' % (hit['vc'], str(hit['shown'])[:600], hit['label'], hit['detail'][:300]))
        return 'VIOLATION property=%s replay=%s' % (pid, path)
    return 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)


def evidence(pid, tier, spec, results, failures, listed, info, t0):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    total = sum(r.get('total', 0) for r in results)
    bad = sum(len(r.get('failed', [])) for r in results)
    by = {}
    for r in results:
        for k, v in r.get('by', {}).items():
            by[k] = by.get(k, 0) + v
    trusted = sorted({a for r in results for a in r.get('assumed', []) if not a.startswith('vrt.')})
    inl = sorted({a for r in results for a in r.get('inlined', []) if 'ghost' not in a and '.VC_' not in a and '.spec' not in a and 'vrt.' not in a})
    names = {'bv': 'z3 (bit-vectors)', 'int': 'z3 (integers)', 'cube': 'z3 (case splits)'}
    ev = dict(property=pid, tier=tier, seed=SEED, level='proof',
              coverage=dict(obligations=total, discharged=total - bad,
                            checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
                            trusted_base=['symbolic executor /verif/engine (Go SSA semantics)', 'go/ssa of x/tools', 'z3 ' + __import__('z3').get_version_string()] + ['model of ' + t for t in trusted],
                            by_simplification=sum(r.get('trivial', 0) for r in results),
                            by_backend={names.get(k, k): v for k, v in by.items()},
                            solver_s=round(sum(r.get('solver_s', 0) for r in results), 2),
                            contracts=[dict(contract=r['vc'], obligations=r.get('total', 0), failed=len(r.get('failed', [])), error=r.get('error'), clauses=r.get('labels', []),
                                            loops=r.get('loops', []), seconds=round(r.get('wall_s', 0), 2)) for r in results],
                            functions_executed=inl,
                            reachable=[dict(label=l, result=s) for r in results for l, s, w in r.get('covers', [])],
                            native_runs=info),
              assumptions=props.ASSUMPTIONS + spec.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(failures))
    p = os.path.join(HERE, 'evidence', pid + '.json')
    json.dump(ev, open(p, 'w'), indent=1, ensure_ascii=False)


def replay(path):
    rep = json.load(open(path))
    h = rep.get('failing_input')
    if not h:
        print('no failing input recorded; failed obligations:')
        for f in rep['failed_obligations']:
            print(' ', f['label'], f['kind'], f['vc'], f['where'], f['text'])
        return 1
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    select([h['package']])
    try:
        nat = Native(REPO, tmp)
        r = nat.run(h['package'], dict(vcs=[h['vc']], labels=['*'], seed=1, seconds=0, given=[], replay=h))
        if r and r['hit']:
            print('reproduced: %s %s' % (r['hit']['label'], r['hit']['detail']))
            for s in r['hit']['shown']:
                print('  argument', s)
            return 1
        print('not reproduced')
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
