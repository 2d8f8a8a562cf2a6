"""Runs contracts: extraction, symbolic execution, discharge (in parallel processes)."""
import sys, os, json, subprocess, time, glob, re, pickle, signal, fnmatch, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(100000)
from models import *
from solve import Solver
import loops
import solve
import concrete

PKGDIR = {'egts': 'libs/egts', 'server': 'cli/receiver/server', 'storage': 'cli/receiver/storage',
          'config': 'cli/receiver/config', 'redis': 'cli/receiver/storage/store/redis', 'nats': 'cli/receiver/storage/store/nats',
          'rabbitmq': 'cli/receiver/storage/store/rabbitmq', 'postgresql': 'cli/receiver/storage/store/postgresql',
          'mysql': 'cli/receiver/storage/store/mysql', 'tarantool_queue': 'cli/receiver/storage/store/tarantool_queue',
          'packet-gen': 'cli/packet-gen', 'receiver': 'cli/receiver', 'nsq': 'cli/receiver/storage/store/nsq'}
# contract packages whose specification functions another one uses
DEPS = {'server': ['egts'], 'packet-gen': ['egts']}
GOENV = '''export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"; '''


def sh(cmd, **kw):
    return subprocess.run(['bash', '-c', GOENV + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


SELECTED = None


def select(dirs):
    """only these contract packages take part in this run"""
    global SELECTED
    SELECTED = set(dirs)
    for d in dirs:
        SELECTED.update(DEPS.get(d, []))


def contract_files():
    out = {}
    for d, t in PKGDIR.items():
        if SELECTED is not None and d not in SELECTED:
            continue
        fs = sorted(glob.glob('%s/contracts/%s/*.go' % (HERE, d)))
        if fs:
            out[d] = fs
    return out


def overlay(repo, tests=False, tmp=None):
    rep = {}
    for f in glob.glob(HERE + '/contracts/vrt/*.go'):
        rep['%s/libs/vrt/%s' % (repo, os.path.basename(f))] = f
    for d, fs in contract_files().items():
        for f in fs:
            rep['%s/%s/zz_%s_verif.go' % (repo, PKGDIR[d], os.path.basename(f)[:-3])] = f
    if tests:
        for d, fs in contract_files().items():
            names = []
            pk = None
            for f in fs:
                src = open(f).read()
                names += re.findall(r'^func (VC_\w+)\(', src, re.M)
                pk = re.search(r'^package (\w+)', src, re.M).group(1)
            hooks = os.path.join(HERE, 'native', d + '_hooks.go')
            has = os.path.exists(hooks)
            g = os.path.join(tmp, 'zz_%s_verif_test.go' % d)
            with open(g, 'w') as fo:
                fo.write('//go:build verif\n\npackage %s\n\nimport (\n\t"testing"\n\n\t"github.com/ElectroUnion/egts-gate/libs/vrt"\n)\n\n' % pk)
                fo.write('func TestVerifDrive(t *testing.T) {\n')
                if has:
                    fo.write('\tverifHooks()\n')
                fo.write('\tvrt.Drive(map[string]interface{}{\n')
                for n in names:
                    fo.write('\t\t"%s": %s,\n' % (n, n))
                fo.write('\t})\n}\n')
            rep['%s/%s/zz_drive_verif_test.go' % (repo, PKGDIR[d])] = g
            if has:
                rep['%s/%s/zz_hooks_verif_test.go' % (repo, PKGDIR[d])] = hooks
    return {'Replace': rep}


def extractor():
    src = os.path.join(HERE, 'extract')
    out = os.path.join(HERE, '.build', 'extract')
    deps = [os.path.join(src, f) for f in ('main.go', 'go.mod', 'go.sum')]
    if not os.path.exists(out) or any(os.path.getmtime(d) > os.path.getmtime(out) for d in deps if os.path.exists(d)):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = sh('cd %s && go build -o %s.%d . && mv %s.%d %s' % (src, out, os.getpid(), out, os.getpid(), out))
        if r.returncode:
            raise RuntimeError('extractor does not build: ' + r.stdout.decode()[-2000:])
    return out


class BuildError(Exception):
    pass


def extract(repo, tmp):
    ov = os.path.join(tmp, 'overlay.json')
    json.dump(overlay(repo), open(ov, 'w'))
    o = os.path.join(tmp, 'ssa.json')
    r = sh('%s -dir %s -overlay %s -out %s -inline bytes,strings,encoding/binary,internal/stringslite' % (extractor(), repo, ov, o))
    if r.returncode:
        raise BuildError(r.stdout.decode()[-3000:])
    js = json.load(open(o))
    if js['errors']:
        raise BuildError('\n'.join(str(e) for e in js['errors'])[:3000])
    return js


def matches(label, globs):
    return any(fnmatch.fnmatchcase(label, g) for g in globs)


LOOPKINDS = ('invariant', 'loop-progress', 'loop-complete', 'termination')


def execute(P, name):
    """symbolic execution of one contract"""
    S = Solver()
    ex = Exec(P, solver=S)
    install(ex)
    f = P.funcs[name]
    st = State(PC_TRUE, {})
    args = [ex.W.fresh(p['t'], 'in:' + p['n']) for p in f['params']]
    ex.contract = name
    r = ex.call(name, args, st, '')
    return ex, S, args, f['params'], r


def run_vc(P, name, sel, outpath, nproc, deadline, want_models):
    """in a child process: execute and discharge; writes a result file"""
    t0 = time.time()
    res = dict(vc=short(name), full=name, obls=[], covers=[], failed=[], error=None)
    try:
        ex, S, args, params, r = execute(P, name)
    except Unsupported as e:
        res['error'] = 'not supported by the verifier: %s' % e
        res['trace'] = [short(x) for x in getattr(e, 'stack', [])] if hasattr(e, 'stack') else []
        pickle.dump(res, open(outpath, 'wb'))
        return
    except Exception as e:
        res['error'] = 'verifier error: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip()[:500]
        res['trace'] = traceback.format_exc()[-1500:]
        pickle.dump(res, open(outpath, 'wb'))
        return
    res['exec_s'] = time.time() - t0
    res['noreturn'] = r is None
    res['inlined'] = sorted(short(x) for x in ex.inlined)
    res['assumed'] = sorted(short(x) for x in ex.assumed)
    res['notes'] = list(ex.notes)[:20]
    res['loops'] = [dict(fn=short(l['fn']), where=l['where'], ghost=l['ghost'], rounds=l['rounds'], invariant=l['invariant']) for l in ex.loop_stats]
    sel_obls = []
    for o in ex.obls:
        if not (matches(o.label or '', sel) or o.kind in LOOPKINDS):
            continue
        sel_obls.append(o)
    hard = [o for o in sel_obls if not (o.cond is TRUE or o.pc is FALSE)]
    res['total'] = len(sel_obls)
    res['trivial'] = len(sel_obls) - len(hard)
    res['labels'] = sorted({o.label for o in sel_obls if o.label})
    # discharge, in nproc processes
    n = max(1, min(nproc, len(hard)))
    ctr = mp.Value('i', 0)
    pids = []
    for w in range(n):
        p = outpath + '.%d' % w
        pid = os.fork()
        if pid == 0:
            try:
                part = []
                S2 = S
                S2.by = {}
                while True:
                    with ctr.get_lock():
                        i = ctr.value
                        ctr.value += 1
                    if i >= len(hard):
                        break
                    o = hard[i]
                    tq = time.time()
                    if tq > deadline:
                        part.append((i, 'timeout', 0.0, None, None))
                        continue
                    try:
                        if SEM:
                            SEM.acquire()
                        tq = time.time()
                        try:
                            stt, _ = S2.check(ex, [o.pc, Not(o.cond)])
                        finally:
                            if SEM:
                                SEM.release()
                    except Exception as e:
                        stt = 'error: ' + str(e)[:200]
                    tq = time.time() - tq
                    cx = None
                    if stt == 'sat' and want_models and sum(1 for x in part if x[1] != 'unsat') < 3:
                        try:
                            cx = concrete.counterexample(ex, S2, o, args, params, time.time() + 40)
                        except Exception as e:
                            cx = None
                    part.append((i, stt, tq, cx, None))
                pickle.dump((part, S2.by, S2.nq, S2.tq), open(p, 'wb'))
            except BaseException as e:
                pickle.dump(([], {}, 0, 0), open(p, 'wb'))
            os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    by = dict(S.by)
    done = {}
    secs = S.tq
    for w in range(n):
        p = outpath + '.%d' % w
        try:
            part, b, nq, tq = pickle.load(open(p, 'rb'))
        except Exception:
            part, b, nq, tq = [], {}, 0, 0
        for i, stt, t, cx, _ in part:
            done[i] = (stt, t, cx)
        for k, v in b.items():
            by[k] = by.get(k, 0) + v
        secs += tq
    # undecided ones get a second, longer try with other seeds
    again = [i for i, o in enumerate(hard) if done.get(i, ('crashed',))[0] not in ('unsat', 'sat', 'timeout')]
    if again and len(again) <= 6 and not any(d[0] == 'sat' for d in done.values()):
        for i in again:
            if time.time() > deadline:
                break
            t0r = time.time()
            stt = portfolio(ex, S, hard[i], min(90, max(5, deadline - time.time())), outpath)
            if stt == 'unsat':
                by['bv'] = by.get('bv', 0) + 1
            secs += time.time() - t0r
            done[i] = (stt, done.get(i, (0, 0.0))[1] + time.time() - t0r, None)
            if stt != 'unsat':
                break
    for i in [i for i, o in enumerate(hard) if done.get(i, ('crashed',))[0] not in ('unsat', 'sat')][:3]:
        try:
            done[i] = done.get(i, ('crashed', 0.0, None))[:2] + (concrete.counterexample(ex, S, hard[i], args, params, time.time() + 30),) if want_models and time.time() < deadline else done[i]
        except Exception:
            pass
    res['hard'] = []
    for i, o in enumerate(hard):
        stt, t, cx = done.get(i, ('crashed', 0.0, None))
        res['hard'].append((o.label, o.kind, stt, round(t, 3)))
        if stt != 'unsat':
            res['failed'].append(dict(label=o.label, kind=o.kind, where=o.where, fn=short(o.fn), text=o.text, status=stt, args=cx,
                                      seconds=round(t, 2), cond=show(o.cond, 6)[:1500]))
    res['by'] = by
    res['solver_s'] = secs
    # vacuity: every behaviour the contract names as reachable is reachable
    for lab, pc, c, where in ex.covers:
        if time.time() > deadline:
            break
        try:
            stt, _ = S.check(ex, [pc, c], timeout=3000, plan=1)
        except Exception:
            stt = 'unknown'
        res['covers'].append((lab, stt, where))
    res['wall_s'] = time.time() - t0
    pickle.dump(res, open(outpath, 'wb'))


SEM = None


def portfolio(ex, S, o, secs, outpath):
    """several differently seeded attempts side by side; the first answer counts"""
    ts = [o.pc, Not(o.cond)]
    ax = S.axioms(ex, ts)
    pids = {}
    for k, (how, seed) in enumerate([('bv', None), ('bv', 7), ('bv', 23), ('int', None), ('bv', 101)]):
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                r, _ = S.attempt(how, ax + ts, int(secs * 1000), False, seed)
                code = 0 if r == 'unsat' else 1 if r == 'sat' and how == 'bv' else 3
            except BaseException:
                pass
            os._exit(code)
        pids[pid] = how
    ans = 'unknown'
    end = time.time() + secs + 5
    while pids and ans == 'unknown':
        for pid in list(pids):
            p, stt = os.waitpid(pid, os.WNOHANG)
            if p:
                pids.pop(pid)
                c = os.waitstatus_to_exitcode(stt)
                if c == 0:
                    ans = 'unsat'
                elif c == 1 and ans == 'unknown':
                    ans = 'sat'
        if time.time() > end:
            break
        time.sleep(0.02)
    for pid in pids:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    return ans


def run_contracts(P, jobs, tmp, deadline, want_models=True, par=8):
    """jobs: [(full function name, label globs)] -> list of results"""
    global SEM
    SEM = mp.Semaphore(8)
    out = []
    running = {}
    queue = list(jobs)
    per = 8 if len(queue) <= 2 else 4 if len(queue) <= 6 else 3
    n = 0
    solve.PAR = 8 if len(queue) <= 2 else 4 if len(queue) == 3 else 1
    results = {}
    while queue or running:
        while queue and len(running) < par:
            name, sel = queue.pop(0)
            path = os.path.join(tmp, 'r%d' % n)
            n += 1
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    run_vc(P, name, sel, path, per, deadline, want_models)
                except BaseException as e:
                    try:
                        pickle.dump(dict(vc=short(name), full=name, obls=[], covers=[], failed=[], error='verifier crashed: %r' % e), open(path, 'wb'))
                    except BaseException:
                        pass
                os._exit(0)
            running[pid] = (name, path, time.time())
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            if time.time() > deadline + 60:
                for p in running:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
            continue
        if pid in running:
            name, path, t = running.pop(pid)
            try:
                r = pickle.load(open(path, 'rb'))
            except Exception:
                r = dict(vc=short(name), full=name, obls=[], covers=[], failed=[], error='the verifier gave no answer in time')
            out.append(r)
    return out
