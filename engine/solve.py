"""Discharge of obligations with z3 (python API)."""
import time
import z3
import terms
from values import *
from fractions import Fraction

FPU = Fraction(1, 1 << 53)
FPT = Fraction(1, 1 << 1074)


class Z:
    """term -> z3 translation with memo"""

    def __init__(self):
        self.memo = {}
        self.sorts = {}
        self.fns = {}

    def sort(self, s):
        if s == 'B':
            return z3.BoolSort()
        if s == 'R':
            return z3.RealSort()
        if s == 'I':
            return z3.IntSort()
        if isinstance(s, int):
            return z3.BitVecSort(s)
        r = self.sorts.get(s)
        if r is None:
            r = z3.DeclareSort(s[1])
            self.sorts[s] = r
        return r

    def fn(self, name, args, ret):
        k = (name, tuple(args), ret)
        f = self.fns.get(k)
        if f is None:
            f = z3.Function('%s/%d' % (name, len(self.fns)), *[self.sort(a) for a in args], self.sort(ret))
            self.fns[k] = f
        return f

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.memo[x.id] = self.conv(x)
        return self.memo[t.id]

    def conv(self, t):
        a = [self.memo[x.id] for x in t.args]
        op, s = t.op, t.sort
        if op == 'const':
            if s == 'B':
                return z3.BoolVal(t.val)
            if s == 'R':
                return z3.RealVal('%d/%d' % (t.val.numerator, t.val.denominator))
            if s == 'I':
                return z3.IntVal(t.val)
            return z3.BitVecVal(t.val, s)
        if op == 'var':
            return z3.Const(t.val, self.sort(s))
        if op == 'app':
            return self.fn(t.val, [x.sort for x in t.args], s)(*a)
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(*a)
        if op == 'or':
            return z3.Or(*a)
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == 'eq':
            return a[0] == a[1]
        if op == 'lin':
            r = None
            n = s
            for k, x in zip(t.val[1:], a):
                if k == 1:
                    r = x if r is None else r + x
                elif k == (1 << n) - 1:
                    r = -x if r is None else r - x
                else:
                    y = x * z3.BitVecVal(k, n)
                    r = y if r is None else r + y
            if t.val[0]:
                r = r + z3.BitVecVal(t.val[0], n)
            return r
        if op == 'mul':
            return a[0] * a[1]
        if op == 'ult':
            return z3.ULT(a[0], a[1])
        if op == 'slt':
            return a[0] < a[1]
        if op == 'rlt':
            return a[0] < a[1]
        if op == 'r+':
            return a[0] + a[1]
        if op == 'r-':
            return a[0] - a[1]
        if op == 'r*':
            return a[0] * a[1]
        if op == 'r/':
            return a[0] / a[1]
        if op == 'zext':
            return z3.ZeroExt(s - t.args[0].sort, a[0])
        if op == 'sext':
            return z3.SignExt(s - t.args[0].sort, a[0])
        if op == 'extract':
            return z3.Extract(t.val[0], t.val[1], a[0])
        if op == 'concat':
            return z3.Concat(a[0], a[1])
        if op == 'bvand':
            return a[0] & a[1]
        if op == 'bvor':
            return a[0] | a[1]
        if op == 'bvxor':
            return a[0] ^ a[1]
        if op == 'bvnot':
            return ~a[0]
        if op == 'shl':
            return a[0] << a[1]
        if op == 'lshr':
            return z3.LShR(a[0], a[1])
        if op == 'ashr':
            return a[0] >> a[1]
        if op == 'udiv':
            return z3.UDiv(a[0], a[1])
        if op == 'urem':
            return z3.URem(a[0], a[1])
        if op == 'sdiv':
            return a[0] / a[1]
        if op == 'srem':
            return z3.SRem(a[0], a[1])
        raise Unsupported('z3 conversion of ' + op)


HEAVY = ('sdiv', 'udiv', 'srem', 'urem', 'mul')


class ZAbs(Z):
    """divisions and products are unknown functions of their arguments and applications are unknown
    constants (only 'unsat' means anything)"""

    def conv(self, t):
        if t.op == 'app' and len(t.args) > 0:
            return z3.Const('#%d' % t.id, self.sort(t.sort))
        if t.op in HEAVY:
            a = [self.memo[x.id] for x in t.args]
            return self.fn('#' + t.op, [x.sort for x in t.args], t.sort)(*a)
        return Z.conv(self, t)


class ZInt(Z):
    """abstraction used as a second opinion: 64-bit quantities become mathematical integers where
    interval analysis shows that no operation wraps; everything else 64-bit becomes an
    unconstrained integer of the same range.  Only 'unsat' answers are used."""

    def __init__(self):
        Z.__init__(self)
        self.side = {}

    def sort(self, s):
        if s == 64:
            return z3.IntSort()
        return Z.sort(self, s)

    def opaque(self, t):
        v = z3.Int('#%d' % t.id)
        lo, hi = srange(t)
        self.side[t.id] = z3.And(v >= lo, v <= hi)
        return v

    def conv(self, t):
        op, s = t.op, t.sort
        if s == 64:
            a = [self.memo[x.id] for x in t.args]
            if op == 'const':
                return z3.IntVal(sgn(t.val, 64))
            if op in ('var', 'app'):
                r = z3.Int(t.val) if op == 'var' else self.fn(t.val, [x.sort for x in t.args], s)(*a)
                lo, hi = srange(t)
                self.side[t.id] = z3.And(r >= lo, r <= hi)
                return r
            if op == 'ite':
                return z3.If(a[0], a[1], a[2])
            if op == 'lin':
                if srange(t) == FULL(64) or any(srange(x) == FULL(64) for x in t.args):
                    return self.opaque(t)
                r = z3.IntVal(sgn(t.val[0], 64))
                for k, x in zip(t.val[1:], a):
                    k = sgn(k, 64)
                    r = r + x if k == 1 else r - x if k == -1 else r + k * x
                return r
            if op == 'zext' and t.args[0].sort <= 16:
                r = z3.BV2Int(a[0], False)
                return r
            return self.opaque(t)
        if t.args and any(x.sort == 64 for x in t.args) and op not in ('eq', 'ult', 'slt', 'app', 'ite'):
            # bit-level use of a 64-bit quantity
            v = z3.Const('#%d' % t.id, self.sort(s))
            return v
        if op in ('ult', 'slt') and t.args[0].sort == 64:
            a = [self.memo[x.id] for x in t.args]
            if op == 'slt':
                return a[0] < a[1]
            n0, n1 = srange(t.args[0])[0] >= 0, srange(t.args[1])[0] >= 0
            if n0 and n1:
                return a[0] < a[1]
            if n1:
                return z3.And(a[0] >= 0, a[0] < a[1])
            if n0:
                return z3.Or(a[1] < 0, a[0] < a[1])
            return z3.Or(z3.And(a[0] >= 0, a[1] < 0), z3.And(z3.Or(a[0] >= 0, a[1] < 0), a[0] < a[1]))
        return Z.conv(self, t)


def absr(x):
    return Ite(Rlt(x, realc(0)), arith('-', realc(0), x), x)


PAR = 1     # processes used for batches of queries


class Solver:
    def __init__(self, ex=None, timeout=20000):
        self.z = Z()
        self.zi = ZInt()
        self.za = ZAbs()
        self.by = {}
        self.timeout = timeout
        self.memo = {}
        self.nq = 0
        self.tq = 0.0
        self.pairmemo = {}
        self.axmemo = {}

    # ---- collect reachable special terms
    def collect(self, roots):
        seen = {}
        stack = list(roots)
        while stack:
            x = stack.pop()
            if x.id in seen:
                continue
            seen[x.id] = x
            stack.extend(x.args)
        return seen

    def axiom_of(self, ex, t):
        """axioms attached to a term (list of Terms)"""
        r = self.axmemo.get(t.id)
        if r is not None:
            return r
        out = []
        W = ex.W
        if t.id in W.lenbound:
            ln, low = W.lenbound[t.id]
            out.append(mk("not", (mk("ult", (I64(W.maxlen), ln), "B"),), "B"))
            if low is not None:
                out.append(Ule(low, ln))
        if t.op == 'app' and t.sort == 'R':
            n = t.val
            if n in ('fadd', 'fsub', 'fmul', 'fdiv'):
                x, y = t.args
                e = None
                if n == 'fadd':
                    e = arith('+', x, y)
                elif n == 'fsub':
                    e = arith('-', x, y)
                elif n == 'fmul' and (isc(x) or isc(y)):
                    e = arith('*', x, y)
                elif n == 'fdiv' and isc(y) and y.val != 0:
                    e = arith('*', x, realc(Fraction(1) / y.val))
                if e is not None:
                    if n == 'fmul' and isc(y) and not isc(x):
                        e = arith('*', y, x)
                    elif n == 'fdiv':
                        e = arith('*', realc(Fraction(1) / y.val), x)
                    # sign-split, linear
                    u = realc(1 - FPU), realc(1 + FPU)
                    lo = Ite(Rlt(e, realc(0)), arith('*', u[1], e), arith('*', u[0], e))
                    hi = Ite(Rlt(e, realc(0)), arith('*', u[0], e), arith('*', u[1], e))
                    out.append(Rle(arith('-', lo, realc(FPT)), t))
                    out.append(Rle(t, arith('+', hi, realc(FPT))))
                    out.append(Implies(Rle(realc(0), e), Rle(realc(0), t)))
                    out.append(Implies(Rle(e, realc(0)), Rle(t, realc(0))))
            elif n == 'f32':
                e = t.args[0]
                a = absr(e)
                d = arith('*', realc(Fraction(1, 1 << 24)), a)
                tiny = realc(Fraction(1, 1 << 149))
                out.append(Rle(arith('-', arith('-', e, d), tiny), t))
                out.append(Rle(t, arith('+', arith('+', e, d), tiny)))
                out.append(Implies(Rle(realc(0), e), Rle(realc(0), t)))
                out.append(Implies(Rle(e, realc(0)), Rle(t, realc(0))))
            elif n == 'i2fu':
                x = t.args[0]
                lo, hi = urange(x)
                out.append(Rle(realc(lo), t))
                out.append(Rle(t, realc(Fraction(float(hi)))))
                y = x
                while y.op == 'zext':
                    y = y.args[0]
                if y is not x:
                    out.append(Eq(t, app('i2fu', (y,), 'R')))
                if y.op == 'app' and y.val in ('f2iu', 'f2is'):
                    f = y.args[0]
                    n_ = y.sort
                    inr = And(Rle(realc(0), f), Rlt(f, realc(1 << (n_ if y.val == 'f2iu' else n_ - 1))))
                    out.append(Implies(inr, And(Rle(t, f), Rlt(f, arith('+', t, realc(1))))))
            elif n == 'i2fs':
                x = t.args[0]
                lo, hi = srange(x)
                out.append(Rle(realc(Fraction(float(lo))), t))
                out.append(Rle(t, realc(Fraction(float(hi)))))
                if lo >= 0:
                    out.append(Eq(t, app('i2fu', (x,), 'R')))
                # order with respect to zero
                out.append(Eq(Rlt(t, realc(0)), Slt(x, bv(0, x.sort))))
            elif n == 'fround':
                x = t.args[0]
                h = realc(Fraction(1, 2))
                out.append(Rle(arith('-', x, h), t))
                out.append(Rle(t, arith('+', x, h)))
            elif n == 'ffloor':
                x = t.args[0]
                out.append(Rle(t, x))
                out.append(Rlt(x, arith('+', t, realc(1))))
            elif n == 'fabs':
                out.append(Eq(t, absr(t.args[0])))
        elif t.op == 'app' and t.val in ('f2iu', 'f2is') and isinstance(t.sort, int):
            x = t.args[0]
            if isc(x):
                pass
            out.append(TRUE)
            # integrality:  i2f(f2i(x)) relation is generated from the i2f side; force it to exist
            if t.val == 'f2iu':
                out.append(Eq(app('i2fu', (t,), 'R'), app('i2fu', (t,), 'R')))
                g = app('i2fu', (t,), 'R')
                inr = And(Rle(realc(0), x), Rlt(x, realc(1 << t.sort)))
                out.append(Implies(inr, And(Rle(g, x), Rlt(x, arith('+', g, realc(1))))))
                if x.op == 'app' and x.val in ('fround', 'ffloor'):
                    out.append(Implies(inr, Eq(g, x)))
        extra = getattr(ex, 'term_axioms', None)
        if extra:
            for f in extra:
                out += f(ex, t)
        out = [o for o in out if o is not TRUE]
        self.axmemo[t.id] = out
        return out

    def pair_axiom(self, ex, d1, d2):
        k = (d1[0].id, d2[0].id) if d1[0].id < d2[0].id else (d2[0].id, d1[0].id)
        r = self.pairmemo.get(k)
        if r is not None:
            return r
        self.pairmemo[k] = TRUE
        t1, a1, o1, l1, e1, s1 = d1
        t2, a2, o2, l2, e2, s2 = d2
        if t1 is t2 or Eq(l1, l2) is FALSE:
            return TRUE
        if (e1 is None) != (e2 is None) and not self.bytelike(ex, e1 if e1 is not None else e2):
            return TRUE
        if e1 is not None and e2 is not None and e1 != e2:
            return TRUE
        w = var('wit!%d!%d' % k, 64)
        ex.W.bounded(w)
        try:
            x = ex.W.select(a1, Add(o1, w))
            y = ex.W.select(a2, Add(o2, w))
            if isinstance(x, Term):
                if not isinstance(y, Term) or x.sort != y.sort:
                    return TRUE
                same = Eq(x, y)
            else:
                same = ex.deq(s1, x, s2, y, e1)
        except Unsupported:
            return TRUE
        r = Or(Eq(t1, t2), Ne(l1, l2), And(Ult(w, l1), Not(same)))
        self.pairmemo[k] = r
        return r

    def bytelike(self, ex, e):
        return ex.T.kind(e) == 'basic' and BASIC.get(ex.T.und(e)['name']) == 8

    def axioms(self, ex, roots):
        """closure of axioms relevant to roots"""
        seen = {}
        out = []
        frontier = list(roots)
        byid = {}
        for d in ex.digs:
            byid[d[0].id] = d
        present = []
        for rounds in range(6):
            new = []
            stack = list(frontier)
            while stack:
                x = stack.pop()
                if x.id in seen:
                    continue
                seen[x.id] = x
                new.append(x)
                stack.extend(x.args)
            if not new:
                break
            frontier = []
            for x in new:
                if x.op in ('var', 'app'):
                    for a in self.axiom_of(ex, x):
                        out.append(a)
                        frontier.append(a)
            nd = [byid[x.id] for x in new if x.id in byid]
            # refresh: new digests may have been created by axioms
            for d in ex.digs[len(byid):]:
                pass
            for d in nd:
                for e in present:
                    a = self.pair_axiom(ex, d, e)
                    if a is not TRUE:
                        out.append(a)
                        frontier.append(a)
                present.append(d)
            byid = {d[0].id: d for d in ex.digs}
        return out

    def check(self, ex, ts, timeout=None, model=False, seed=None, plan=None):
        """sat-check of the conjunction; returns 'unsat' / 'sat' / 'unknown', model"""
        ts = [t for t in ts if t is not TRUE]
        if any(t is FALSE for t in ts):
            return 'unsat', None
        ax = self.axioms(ex, ts)
        full = timeout or self.timeout
        wide = any(t.sort == 64 and t.op in ('var', 'app') for t in self.collect(ts).values())
        if plan:
            return self.attempt('bv', ax + ts, full, model, seed)
        heavy = any(t.op in HEAVY for t in self.collect(ts).values())
        plan = [('bv', full)]
        if not model:
            plan = [('bv', min(1500, full))] + ([('int', min(4000, full))] if wide else [])
            if full >= 5000:
                plan.append(('small', min(3000, full)))
            if full > 1500:
                plan += [('bv', full)] if full < 10000 else [('cube', 2 * full), ('bv', full)]
            if heavy:
                plan.insert(0, ('abs', min(2000, full)))
        for how, lim in plan:
            if how == 'small':
                ss = self.smaller(ts)
                if ss is None:
                    continue
                ax2 = self.axioms(ex, ss)
                for hh in ('bv', 'int'):
                    r, m = self.attempt(hh, ax2 + ss, lim, False, seed)
                    if r == 'unsat':
                        return r, None
                continue
            if how == 'cube':
                import cube
                r = cube.refute(self, ex, AndL(ts), lim / 1000.0)
                if r == 'unsat':
                    self.by['cube'] = self.by.get('cube', 0) + 1
                    return r, None
                continue
            r, m = self.attempt(how, ax + ts, lim, model, seed)
            if r == 'unsat' or (r == 'sat' and how == 'bv'):
                return r, m
        return 'unknown', None

    def smaller(self, ts):
        """without the large hypotheses (the last formula is the negated goal); None when there are none"""
        hyp = [x for t in ts[:-1] for x in (t.args if t.op == 'and' else (t,))]
        if len(self.collect(ts)) < 1500:
            return None
        keep = [t for t in hyp if len(self.collect([t])) < 200]
        return keep + [ts[-1]] if len(keep) < len(hyp) else None

    def attempt(self, how, fs, timeout, model, seed):
        if how == 'int':
            z = self.zi
            es = [z(t) for t in fs]
            es += [z.side[i] for i in self.collect(fs) if i in z.side]
            bvonly = False
        else:
            z = self.za if how == 'abs' else self.z
            es = [z(t) for t in fs]
            bvonly = self.pure_bv(fs)
        t0 = time.time()
        lim = timeout
        for again in (False, True):
            s = z3.SolverFor('QF_UFBV') if bvonly else z3.Solver()
            for e in es:
                s.add(e)
            s.set('timeout', lim)
            if seed is not None:
                s.set('random_seed', seed)
            t1, c1 = time.time(), time.process_time()
            try:
                r = s.check()
            except z3.Z3Exception as e:
                r = z3.unknown
            # the limit is wall time: when other work held the processor, the query gets its share after all
            wall, cpu = time.time() - t1, time.process_time() - c1
            if r != z3.unknown or again or wall < 0.9 * lim / 1000.0 or cpu > 0.75 * wall:
                break
            lim = int(lim * min(6.0, 1.3 * wall / max(cpu, 0.01)))
        self.nq += 1
        self.tq += time.time() - t0
        if r == z3.unsat:
            self.by[how] = self.by.get(how, 0) + 1
            return 'unsat', None
        if r == z3.sat:
            return 'sat', (s.model() if model else None)
        return 'unknown', None

    def pure_bv(self, terms):
        for t in self.collect(terms).values():
            if t.sort in ('R', 'I') or isinstance(t.sort, tuple):
                return False
        return True

    def valid(self, pc, cond, ex, timeout=None):
        if cond is TRUE:
            return True
        if cond is FALSE and pc is TRUE:
            return False
        k = (pc.id, cond.id)
        r = self.memo.get(k)
        if r is None:
            st, _ = self.check(ex, [pc, Not(cond)], timeout or 5000)
            r = st == 'unsat'
            self.memo[k] = r
        return r

    def prefetch(self, pairs, ex):
        """decides several (path condition, condition) pairs side by side, for valid() to look up"""
        todo = {}
        for pc, c in pairs:
            if c is TRUE or c is FALSE and pc is TRUE or (pc.id, c.id) in self.memo:
                continue
            todo[(pc.id, c.id)] = (pc, c)
        n = min(PAR, len(todo))
        if n < 2:
            return
        todo = list(todo.items())
        import os, pickle, multiprocessing as mp
        ctr = mp.Value('i', 0)
        kids = []
        for w in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                out = []
                try:
                    os.close(rd)
                    q0, t0 = self.nq, self.tq
                    while True:
                        with ctr.get_lock():
                            i = ctr.value
                            ctr.value += 1
                        if i >= len(todo):
                            break
                        k, (pc, c) = todo[i]
                        out.append((i, self.valid(pc, c, ex)))
                    data = pickle.dumps((out, self.nq - q0, self.tq - t0))
                    with os.fdopen(wr, 'wb') as f:
                        f.write(data)
                except BaseException:
                    pass
                os._exit(0)
            os.close(wr)
            kids.append((pid, rd))
        for pid, rd in kids:
            with os.fdopen(rd, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                out, nq, tq = pickle.loads(data)
            except Exception:
                continue
            for i, r in out:
                self.memo[todo[i][0]] = r
            self.nq += nq
            self.tq += tq

    def smt2(self, ex, terms):
        s = z3.Solver()
        for t in self.axioms(ex, terms) + terms:
            s.add(self.z(t))
        return s.to_smt2()
