"""Case splitting on the conditions inside an obligation (cube and conquer).  Terms are rebuilt
under the assumed literals with the simplifying constructors, so most leaves fold away."""
import time
import terms
from terms import *

REB = {
    'eq': Eq, 'ult': Ult, 'slt': Slt, 'rlt': Rlt, 'mul': Mul, 'concat': Concat, 'bvand': BvAnd, 'bvor': BvOr,
    'bvxor': BvXor, 'shl': Shl, 'lshr': Lshr, 'ashr': Ashr, 'udiv': Udiv, 'urem': Urem, 'sdiv': Sdiv, 'srem': Srem,
}


def rebuild(t, a):
    op = t.op
    if op == 'ite':
        return Ite(a[0], a[1], a[2])
    if op == 'not':
        return Not(a[0])
    if op == 'and':
        return AndL(list(a))
    if op == 'or':
        return OrL(list(a))
    f = REB.get(op)
    if f is not None:
        return f(a[0], a[1])
    if op == 'lin':
        r = bv(t.val[0], t.sort)
        for k, x in zip(t.val[1:], a):
            r = Add(r, x if k == 1 else Mul(bv(k, t.sort), x))
        return r
    if op == 'zext':
        return ZExt(a[0], t.sort)
    if op == 'sext':
        return SExt(a[0], t.sort)
    if op == 'extract':
        return Extract(t.val[0], t.val[1], a[0])
    if op == 'bvnot':
        return BvNot(a[0])
    if op in ('r+', 'r-', 'r*', 'r/'):
        return arith(op[1], a[0], a[1])
    if op == 'app':
        return app(t.val, tuple(a), t.sort)
    return mk(op, tuple(a), t.sort, t.val)


def under(t, lits, memo):
    """t simplified assuming the literals"""
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.sort == 'B' and x.op not in ('const',):
            v = lit_value(x, lits)
            if v is not None:
                memo[x.id] = TRUE if v else FALSE
                stack.pop()
                continue
        if x.op == 'ite':
            c = x.args[0]
            if c.id not in memo:
                stack.append(c)
                continue
            mc = memo[c.id]
            if mc is TRUE or mc is FALSE:
                y = x.args[1] if mc is TRUE else x.args[2]
                if y.id not in memo:
                    stack.append(y)
                    continue
                memo[x.id] = memo[y.id]
                stack.pop()
                continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        a = [memo[y.id] for y in x.args]
        if all(p is q for p, q in zip(a, x.args)):
            memo[x.id] = x
        else:
            memo[x.id] = rebuild(x, a)
    return memo[t.id]


def candidates(t):
    """atoms of ite conditions with the number of their uses, weighted by depth"""
    seen = {}
    score = {}
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        stack.extend(x.args)
        if x.op == 'ite' or x.op == 'or':
            cs = [x.args[0]] if x.op == 'ite' else list(x.args)
            while cs:
                c = cs.pop()
                if c.op in ('not', 'and', 'or'):
                    cs.extend(c.args)
                elif c.op != 'const':
                    s = score.setdefault(c.id, [0, c])
                    s[0] += 1
    def small(c):
        # splitting on a condition over few leaves simplifies most
        n, st, sn = 0, [c], set()
        while st and n < 200:
            y = st.pop()
            if y.id in sn:
                continue
            sn.add(y.id)
            n += 1
            st.extend(y.args)
        return n
    out = sorted(score.values(), key=lambda s: (-s[0] * 1.0 / (1 + small(s[1]) / 6.0), s[1].id))
    return [c for _, c in out]


def refute(solver, ex, f, budget, leaf=1500, stats=None):
    """is f unsatisfiable?  'unsat' / 'unknown'"""
    t_end = time.process_time() + budget
    work = [(f, 0)]
    n = 0
    while work:
        if time.process_time() > t_end:
            return 'unknown'
        g, d = work.pop()
        if g is FALSE:
            continue
        n += 1
        cs = candidates(g)
        if d >= 3 or not cs:
            r, _ = solver.check(ex, list(g.args) if g.op == 'and' else [g], timeout=leaf if cs else 8000, plan=1)
            if r == 'unsat':
                continue
            if r == 'sat' and not cs:
                return 'sat'
            if not cs:
                return 'unknown'
        a = cs[0]
        for lit in (a, Not(a)):
            h = And(lit, g)
            for _ in range(3):
                lits = Lits({x.id: x for x in (h.args if h.op == 'and' else (h,))})
                ks = list(lits.values())
                # every conjunct is simplified under the atomic ones
                at = [k for k in ks if k.op not in ('or', 'and')]
                L = Lits({k.id: k for k in at})
                memo = {}
                new = []
                for k in ks:
                    if k.id in L:
                        L2 = Lits({y.id: y for y in at if y is not k})
                        new.append(under(k, L2, {}))
                    else:
                        new.append(under(k, L, memo))
                h2 = AndL(new)
                if h2 is h or h2 is FALSE:
                    h = h2
                    break
                h = h2
            if h is not FALSE:
                work.append((h, d + 1))
    if stats is not None:
        stats.append(n)
    return 'unsat'
