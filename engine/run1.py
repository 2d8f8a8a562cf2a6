"""debug driver: run one contract function"""
import sys, os, json, subprocess, time
sys.path.insert(0, os.path.dirname(__file__))
sys.setrecursionlimit(100000)
from models import *
from solve import Solver
import loops, solve
solve.PAR = int(os.environ.get('PAR', '8'))

REPO = os.environ.get('REPO', '/repo')
def extract():
    import driver
    import tempfile
    with tempfile.TemporaryDirectory() as t:
        return driver.extract(REPO, t)

def main():
    js = extract()
    P = Program(js)
    names = [f for f in P.funcs if any(short(f).endswith('.' + a) or (a.endswith('*') and a[:-1] in short(f)) for a in sys.argv[1:]) and 'VC_' in f and '$' not in f]
    for n in sorted(names):
        t0 = time.time()
        S = Solver()
        ex = Exec(P, solver=S)
        install(ex)
        f = P.funcs[n]
        st = State(PC_TRUE, {})
        args = [ex.W.fresh(p['t'], 'in:' + p['n']) for p in f['params']]
        ex.contract = n
        try:
            r = ex.call(n, args, st, '')
        except Unsupported as e:
            import traceback
            if os.environ.get('TB'): traceback.print_exc()
            print('UNSUPPORTED', short(n), e, ex.stack); continue
        t1 = time.time()
        bad = 0
        for o in ex.obls:
            if o.cond is TRUE or o.pc is FALSE:
                o.status = 'trivial'; continue
            tq = time.time(); stt, _ = S.check(ex, [o.pc, Not(o.cond)]); tq = time.time() - tq
            if tq > 1: print('   slow %.1fs' % tq, o.label, o.where, stt)
            o.status = stt
            if stt != 'unsat':
                bad += 1
                if bad < 12:
                    print('   FAIL', o.label, o.kind, o.where, short(o.fn), stt, o.text)
                    if os.environ.get('SHOW'): print('     COND', show(o.cond, 12)[:3000]); print('     PC', show(o.pc, 8)[:3000])
        print(short(n), 'obls', len(ex.obls), 'nontriv', sum(o.status != 'trivial' for o in ex.obls), 'bad', bad, 'exec %.2fs solve %.2fs queries %d' % (t1 - t0, time.time() - t1, S.nq), 'noreturn' if r is None else '')
        if os.environ.get('V'):
            for l in ex.loop_stats: print('   ', l)
            print('   assumed', sorted(ex.assumed)); print('   notes', ex.notes[:10])
if __name__ == '__main__':
    main()
