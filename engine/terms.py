"""Hash-consed term layer with constant folding.

Sorts: 'B' (bool), int n>0 (bit-vector of n bits), 'R' (real), 'I' (int),
('U',name) uninterpreted.
A Term is immutable and unique per structure, so `is` is structural equality.
"""
import sys
sys.setrecursionlimit(200000)


class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'val', 'depth')

    def __repr__(self):
        return show(self)


_table = {}
_counter = [0]


def mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = tuple(args)
        t.sort = sort
        t.val = val
        t.id = _counter[0]
        t.depth = 1 + max((a.depth for a in args), default=0)
        _counter[0] += 1
        _table[key] = t
    return t


def show(t, d=6):
    if t.op == 'const':
        return str(t.val)
    if t.op == 'var':
        return t.val
    if d == 0:
        return '..'
    if t.op == 'lin':
        s = ' + '.join('%s%s' % ('' if c == 1 else '%d*' % c, show(a, d - 1)) for c, a in zip(t.val[1:], t.args))
        return '(' + s + (' + %d' % sgn(t.val[0], t.sort) if t.val[0] else '') + ')'
    nm = t.op if t.val is None else '%s[%s]' % (t.op, t.val)
    return '(%s %s)' % (nm, ' '.join(show(a, d - 1) for a in t.args))


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


# ---------------------------------------------------------------- constants
TRUE = mk('const', (), 'B', True)
FALSE = mk('const', (), 'B', False)


def boolc(b):
    return TRUE if b else FALSE


def bv(v, n):
    return mk('const', (), n, v & ((1 << n) - 1))


def realc(num, den=1):
    from fractions import Fraction
    return mk('const', (), 'R', Fraction(num, den))


def intc(v):
    return mk('const', (), 'I', int(v))


def var(name, sort):
    return mk('var', (), sort, name)


_fresh = {}


def fresh(name, sort):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return var('%s!%d' % (name, n), sort)


def app(fname, args, sort):
    if not args:
        return var(fname, sort)
    return mk('app', args, sort, fname)


def isc(t):
    return t.op == 'const'


# ---------------------------------------------------------------- booleans
def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    op = a.op
    if op == 'not':
        return a.args[0]
    if op == 'and' or op == 'or':
        r = _nnf.get(a.id)
        if r is None:
            xs = [Not(x) for x in a.args]
            r = OrL(xs) if op == 'and' else AndL(xs)
            _nnf[a.id] = r
            if r.op == 'and' or r.op == 'or':
                _nnf.setdefault(r.id, a)
        return r
    return mk('not', (a,), 'B')


_nnf = {}


def batom(t):
    """(x, lo, hi): t holds exactly when lo <= x <= hi (unsigned); None when t is not of that form"""
    neg = t.op == 'not'
    if neg:
        t = t.args[0]
    if t.op == 'ult':
        a, b = t.args
        if b.op == 'const':
            x, lo, hi = a, 0, b.val - 1
        elif a.op == 'const':
            x, lo, hi = b, a.val + 1, (1 << a.sort) - 1
        else:
            return None
        if neg:
            if lo == 0:
                return (x, hi + 1, (1 << x.sort) - 1)
            return (x, 0, lo - 1)
        return (x, lo, hi)
    if t.op == 'eq':
        a, b = t.args
        if a.op == 'const':
            a, b = b, a
        if b.op != 'const' or not isinstance(b.sort, int):
            return None
        if neg:
            if b.val == 0:
                return (a, 1, (1 << a.sort) - 1)
            return None
        return (a, b.val, b.val)
    return None


def mkatom(x, lo, hi):
    """list of literals for lo <= x <= hi"""
    n = x.sort
    rl, rh = urange(x)
    if lo > hi or hi < rl or lo > rh:
        return None
    if lo == hi:
        return [_eqmk(x, bv(lo, n))]
    out = []
    if lo > rl:
        out.append(Not(_eqmk(x, bv(0, n))) if lo == 1 else Not(mk('ult', (x, bv(lo, n)), 'B')))
    if hi < rh:
        out.append(_eqmk(x, bv(0, n)) if hi == 0 else mk('ult', (x, bv(hi + 1, n)), 'B'))
    return out


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


def And(*ts):
    return AndL(ts)


def AndL(ts):
    seen = {}
    for t in _flat('and', ts):
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        seen[t.id] = t
    if len(seen) > 1:
        grp = None
        for t in seen.values():
            if t.op == 'not':
                if t.args[0].id in seen:
                    return FALSE
            at = batom(t)
            if at is not None:
                if grp is None:
                    grp = {}
                grp.setdefault(at[0].id, []).append((t, at))
        if grp:
            for lst in grp.values():
                if len(lst) < 2:
                    continue
                lo = max(at[1] for _, at in lst)
                hi = min(at[2] for _, at in lst)
                xs = mkatom(lst[0][1][0], lo, hi)
                if xs is None:
                    return FALSE
                ids = {x.id for x in xs}
                if ids == {t.id for t, _ in lst}:
                    continue
                for t, _ in lst:
                    del seen[t.id]
                for x in xs:
                    seen[x.id] = x
    # unit propagation into or-literals
    changed = True
    rounds = 0
    while changed and rounds < 3:
        changed = False
        rounds += 1
        for t in list(seen.values()):
            if t.op == 'or':
                keep = []
                drop = False
                ch = False
                for a in t.args:
                    if a.id in seen:
                        drop = True
                        break
                    na = Not(a)
                    if na.id in seen or (a.op == 'and' and any(Not(x).id in seen for x in a.args)):
                        ch = True
                        continue
                    if a.op == 'and' and any(x.id in seen for x in a.args):
                        ch = True
                        keep.append(AndL([x for x in a.args if x.id not in seen]))
                        continue
                    keep.append(a)
                if drop:
                    del seen[t.id]
                    changed = True
                elif ch:
                    del seen[t.id]
                    r = OrL(keep)
                    if r is FALSE:
                        return FALSE
                    for x in _flat('and', [r]):
                        if x is not TRUE:
                            if Not(x).id in seen:
                                return FALSE
                            seen[x.id] = x
                    changed = True
    xs = sorted(seen.values(), key=lambda t: t.id)
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return mk('and', xs, 'B')


def Or(*ts):
    return OrL(ts)


def OrL(ts):
    seen = {}
    for t in _flat('or', ts):
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        seen[t.id] = t
    if len(seen) > 1:
        grp = None
        for t in seen.values():
            if t.op == 'not' and t.args[0].id in seen:
                return TRUE
            if t.op == 'and' or t.op == 'or':
                continue
            at = batom(t)
            if at is not None:
                if grp is None:
                    grp = {}
                grp.setdefault(at[0].id, []).append((t, at))
        if grp:
            for lst in grp.values():
                if len(lst) < 2:
                    continue
                x = lst[0][1][0]
                rl, rh = urange(x)
                iv = sorted((max(at[1], rl), min(at[2], rh)) for _, at in lst)
                mg = []
                for lo, hi in iv:
                    if lo > hi:
                        continue
                    if mg and lo <= mg[-1][1] + 1:
                        mg[-1][1] = max(mg[-1][1], hi)
                    else:
                        mg.append([lo, hi])
                new = []
                for lo, hi in mg:
                    l = mkatom(x, lo, hi)
                    if not l:
                        if l is None:
                            continue
                        return TRUE
                    new.append(AndL(l))
                ids = {y.id for y in new}
                if ids == {t.id for t, _ in lst} or any(y.op == 'and' for y in new):
                    continue
                for t, _ in lst:
                    del seen[t.id]
                for y in new:
                    if y is TRUE:
                        return TRUE
                    seen[y.id] = y
    xs = list(seen.values())
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    # factor common conjuncts
    if any(x.op == 'and' for x in xs):
        sets = []
        for x in xs:
            sets.append({a.id: a for a in (x.args if x.op == 'and' else (x,))})
        common = set(sets[0])
        for s in sets[1:]:
            common &= set(s)
        if common:
            comm = [sets[0][i] for i in common]
            rest = []
            for s in sets:
                rest.append(AndL([a for i, a in s.items() if i not in common]))
            return AndL(comm + [OrL(rest)])
        # x or (not x and y) -> x or y
        lits = {x.id for x in xs if x.op != 'and'}
        neg = {Not(x).id for x in xs if x.op != 'and'}
        new = []
        ch = False
        for x in xs:
            if x.op == 'and':
                if any(a.id in lits for a in x.args):
                    ch = True
                    continue
                k = [a for a in x.args if a.id not in neg]
                if len(k) != len(x.args):
                    ch = True
                    new.append(AndL(k))
                    continue
            new.append(x)
        if ch:
            return OrL(new)
    xs.sort(key=lambda t: t.id)
    return mk('or', xs, 'B')


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if flip(c):
        return Ite(Not(c), b, a)
    s = a.sort
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if s == 'B':
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
        return And(Or(Not(c), a), Or(c, b))
    # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
    if b.op == 'ite' and b.args[1] is a:
        return Ite(Or(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a:
        return Ite(And(Not(c), b.args[0]), b.args[1], a)
    if a.op == 'ite' and a.args[2] is b:
        return Ite(And(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b:
        return Ite(And(c, Not(a.args[0])), a.args[2], b)
    if isinstance(s, int) and s >= 32:
        # factor a common linear part:  ite(c, x+3, x) -> x + ite(c,3,0)
        la, lb = lin_of(a), lin_of(b)
        if la[1] and lb[1]:
            ca = dict((t.id, (k, t)) for k, t in la[1])
            common = [(k, t) for k, t in lb[1] if t.id in ca and ca[t.id][0] == k]
            if common:
                ids = {t.id for _, t in common}
                ra = lin_mk(la[0], [(k, t) for k, t in la[1] if t.id not in ids], s)
                rb = lin_mk(lb[0], [(k, t) for k, t in lb[1] if t.id not in ids], s)
                return Add(lin_mk(0, common, s), _ite0(c, ra, rb))
    return _ite0(c, a, b)


def _ite0(c, a, b):
    if a is b:
        return a
    if flip(c):
        c, a, b = Not(c), b, a
    return mk('ite', (c, a, b), a.sort)


def flip(c):
    """is the negation of c the canonical condition?"""
    if c.op == 'not':
        return True
    if c.op == 'and' or c.op == 'or':
        n = Not(c)
        return n.id < c.id or n.op not in ('and', 'or')
    return False


# ---------------------------------------------------------------- linear BV
def lin_of(t):
    """(const, [(coef, atom)])"""
    if t.op == 'const':
        return (t.val, [])
    if t.op == 'lin':
        return (t.val[0], list(zip(t.val[1:], t.args)))
    if t.op == 'ite' and t.sort >= 32 and t.args[2].op == 'const' and t.args[2].val and t.args[1].op == 'const':
        b = t.args[2]
        return (b.val, [(1, mk('ite', (t.args[0], bv(t.args[1].val - b.val, t.sort), bv(0, t.sort)), t.sort))])
    return (0, [(1, t)])


def lin_mk(c, parts, n):
    m = (1 << n) - 1
    acc = {}
    for k, t in parts:
        if t.id in acc:
            acc[t.id] = ((acc[t.id][0] + k) & m, t)
        else:
            acc[t.id] = (k & m, t)
    c &= m
    parts = sorted([(k, t) for k, t in acc.values() if k], key=lambda p: p[1].id)
    # merge  k*ite(c,a,b) with same condition
    conds = {}
    for k, t in parts:
        if t.op == 'ite':
            conds.setdefault(t.args[0].id, []).append((k, t))
    for lst in conds.values():
        if len(lst) > 1 and all(isc(t.args[1]) and isc(t.args[2]) for _, t in lst):
            cond = lst[0][1].args[0]
            va = sum(k * t.args[1].val for k, t in lst)
            vb = sum(k * t.args[2].val for k, t in lst)
            ids = {t.id for _, t in lst}
            rest = [(k, t) for k, t in parts if t.id not in ids]
            x = bv(va, n)
            y = bv(vb, n)
            if x is y:
                return lin_mk(c + va, rest, n)
            return lin_mk(c, rest + [(1, mk('ite', (cond, x, y), n))], n)
    if not parts:
        return bv(c, n)
    # normalise constants inside 'ite' with const branches: shift so that else=0
    out = []
    for k, t in parts:
        if t.op == 'ite' and isc(t.args[1]) and isc(t.args[2]) and t.args[2].val != 0 and (len(parts) > 1 or c != 0 or k != 1):
            d = (t.args[1].val - t.args[2].val) & m
            c = (c + k * t.args[2].val) & m
            t = mk('ite', (t.args[0], bv(d, n), bv(0, n)), n)
            out.append((k, t))
            continue
        out.append((k, t))
    if len(out) == 1 and out[0][0] != 1 and out[0][1].op == 'ite' and isc(out[0][1].args[1]) and isc(out[0][1].args[2]):
        k, t = out[0]
        return Ite(t.args[0], bv(k * t.args[1].val + c, n), bv(k * t.args[2].val + c, n))
    if len(out) == 1 and c == 0 and out[0][0] == 1:
        return out[0][1]
    ids = {}
    dup = False
    for k, t in out:
        if t.id in ids:
            dup = True
        ids[t.id] = 1
    if dup:
        return lin_mk(c, out, n)
    out.sort(key=lambda p: p[1].id)
    if len(out) == 1 and out[0][0] == 1 and out[0][1].op == 'ite' and isc(out[0][1].args[1]) and isc(out[0][1].args[2]):
        t = out[0][1]
        return mk('ite', (t.args[0], bv(t.args[1].val + c, n), bv(t.args[2].val + c, n)), n)
    return mk('lin', tuple(t for _, t in out), n, (c,) + tuple(k for k, _ in out))


def Add(a, b):
    n = a.sort
    if n == 'R' or n == 'I':
        return arith('+', a, b)
    ca, pa = lin_of(a)
    cb, pb = lin_of(b)
    return lin_mk(ca + cb, pa + pb, n)


def Sub(a, b):
    n = a.sort
    if n == 'R' or n == 'I':
        return arith('-', a, b)
    ca, pa = lin_of(a)
    cb, pb = lin_of(b)
    return lin_mk(ca - cb, pa + [(-k, t) for k, t in pb], n)


def Neg(a):
    return Sub(bv(0, a.sort), a) if isinstance(a.sort, int) else arith('-', realc(0), a)


def Mul(a, b):
    n = a.sort
    if n == 'R' or n == 'I':
        return arith('*', a, b)
    if isc(b):
        a, b = b, a
    if isc(a):
        c, p = lin_of(b)
        return lin_mk(c * a.val, [(k * a.val, t) for k, t in p], n)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), n)


def arith(op, a, b):
    if isc(a) and isc(b):
        v = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}[op](a.val, b.val)
        return mk('const', (), a.sort, v)
    if op == '+' and isc(a) and a.val == 0:
        return b
    if op in '+-' and isc(b) and b.val == 0:
        return a
    if op in '*/' and isc(b) and b.val == 1:
        return a
    if op == '*' and isc(a) and a.val == 1:
        return b
    if op == '*' and ((isc(a) and a.val == 0) or (isc(b) and b.val == 0)):
        return mk('const', (), a.sort, a.val * 0 if isc(a) else b.val * 0)
    return mk('r' + op, (a, b), a.sort)


# ------------------------------------------------------------ ranges (unsigned)
_rng = {}


def urange(t):
    r = _rng.get(t.id)
    if r is not None:
        return r
    n = t.sort
    m = (1 << n) - 1
    r = (0, m)
    if t.op == 'const':
        r = (t.val, t.val)
    elif t.op == 'zext':
        r = urange(t.args[0])
    elif t.op == 'ite':
        a, b = urange(t.args[1]), urange(t.args[2])
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif t.op == 'lin':
        lo = hi = t.val[0]
        for k, a in zip(t.val[1:], t.args):
            ra = urange(a)
            if k >> (n - 1):
                lo = -1 << 200
                break
            lo += k * ra[0]
            hi += k * ra[1]
        if lo >= 0 and hi <= m:
            r = (lo, hi)
    elif t.op == 'bvand':
        r = (0, min(urange(t.args[0])[1], urange(t.args[1])[1]))
    elif t.op == 'lshr' and isc(t.args[1]):
        a = urange(t.args[0])
        s = t.args[1].val
        r = (a[0] >> s, a[1] >> s)
    elif t.op == 'udiv' and isc(t.args[1]) and t.args[1].val:
        a = urange(t.args[0])
        r = (a[0] // t.args[1].val, a[1] // t.args[1].val)
    elif t.op == 'urem' and isc(t.args[1]) and t.args[1].val:
        r = (0, t.args[1].val - 1)
    elif t.op == 'concat':
        w = t.args[1].sort
        a, b = urange(t.args[0]), urange(t.args[1])
        r = ((a[0] << w) + b[0], (a[1] << w) + b[1])
    _rng[t.id] = r
    return r


# ---------------------------------------------------------------- comparisons
def Eq(a, b):
    if a is b:
        return TRUE
    s = a.sort
    assert s == b.sort, (s, b.sort, a, b)
    if isc(a) and isc(b):
        return boolc(a.val == b.val)
    if s == 'B':
        if isc(a):
            a, b = b, a
        if b is TRUE:
            return a
        if b is FALSE:
            return Not(a)
        if Not(a) is b:
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return mk('eq', (a, b), 'B')
    if isinstance(s, int):
        ra, rb = urange(a), urange(b)
        if ra[1] < rb[0] or rb[1] < ra[0]:
            return FALSE
        if isc(a):
            a, b = b, a
        if a.op == 'lin' or b.op == 'lin':
            d = Sub(a, b)
            if isc(d):
                return boolc(d.val == 0)
            rd = srange(d)
            if rd[0] > 0 or rd[1] < 0:
                return FALSE
            c, p = lin_of(d)
            if len(p) == 1 and p[0][0] in (1, (1 << s) - 1):
                k, t = p[0]
                rhs = bv(-c if k == 1 else c, s)
                return Eq0(t, rhs)
            if len(p) == 2 and sorted([p[0][0], p[1][0]]) == [1, (1 << s) - 1]:
                x = p[0][1] if p[0][0] == 1 else p[1][1]
                y = p[1][1] if p[0][0] == 1 else p[0][1]
                # x - y + c == 0  <=>  x == y - c
                return _eqmk(x, lin_mk(-c, [(1, y)], s))
        return Eq0(a, b)
    return Eq0(a, b) if s != 'R' else _eqmk(a, b)


def Eq0(a, b):
    """b often const"""
    if a is b:
        return TRUE
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return boolc(a.val == b.val)
        if a.op == 'ite':
            # both branches resolved constants (recursively)
            x, y = a.args[1], a.args[2]
            if isc(x) or isc(y) or x.op == 'ite' or y.op == 'ite':
                return Ite(a.args[0], Eq(x, b), Eq(y, b))
        if a.op == 'zext':
            w = a.args[0].sort
            if b.val >> w:
                return FALSE
            return Eq(a.args[0], bv(b.val, w))
        if a.op == 'concat':
            w = a.args[1].sort
            return And(Eq(a.args[0], bv(b.val >> w, a.args[0].sort)), Eq(a.args[1], bv(b.val, w)))
        if isinstance(a.sort, int) and a.sort == 1 and b.val == 0:
            return Not(Eq(a, bv(1, 1)))
    else:
        if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
            return Ite(a.args[0], Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]))
        if a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort:
            return Eq(a.args[0], b.args[0])
    return _eqmk(a, b)


def _eqmk(a, b):
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def Ne(a, b):
    return Not(Eq(a, b))


def Ult(a, b):
    if a is b:
        return FALSE
    n = a.sort
    ra, rb = urange(a), urange(b)
    if ra[1] < rb[0]:
        return TRUE
    if ra[0] >= rb[1]:
        return FALSE
    if isc(b) and b.val == 1:
        return Eq(a, bv(0, n))
    if isc(a) and a.val == 0:
        return Ne(b, bv(0, n))
    if isc(b) and a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
        return Ite(a.args[0], Ult(a.args[1], b), Ult(a.args[2], b))
    if isc(a) and b.op == 'ite' and (isc(b.args[1]) or isc(b.args[2])):
        return Ite(b.args[0], Ult(a, b.args[1]), Ult(a, b.args[2]))
    if a.op == 'lin' or b.op == 'lin' or (not isc(a) and not isc(b) and n >= 32 and a.op != 'zext' and b.op != 'zext'):
        sa, sb = srange(a), srange(b)
        if sa[0] >= 0 and sb[0] >= 0:
            rd = srange(Sub(a, b))
            if rd[1] < 0:
                return TRUE
            if rd[0] >= 0 and rd[1] < FULL(n)[1]:
                return FALSE
            r = _cmplin(a, b, n)
            if r is not None:
                return r
    if a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort:
        return Ult(a.args[0], b.args[0])
    if a.op == 'zext' and isc(b):
        w = a.args[0].sort
        if b.val >> w == 0:
            return Ult(a.args[0], bv(b.val, w))
    return mk('ult', (a, b), 'B')


def Ule(a, b):
    return Not(Ult(b, a))


def srange(t):
    n = t.sort
    lo, hi = urange(t)
    h = 1 << (n - 1)
    if hi < h:
        return (lo, hi)
    if lo >= h:
        return (lo - (1 << n), hi - (1 << n))
    if t.op == 'lin':
        # zext-like + negative constant etc.
        lo = hi = sgn(t.val[0], n)
        ok = True
        for k, a in zip(t.val[1:], t.args):
            ks = sgn(k, n)
            ra = srange(a)
            if ra[0] == -h and ra[1] == h - 1:
                ok = False
                break
            x, y = ks * ra[0], ks * ra[1]
            lo += min(x, y)
            hi += max(x, y)
        if ok and lo >= -h and hi < h:
            return (lo, hi)
    if t.op == 'ite':
        a, b = srange(t.args[1]), srange(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    return (-h, h - 1)


def Slt(a, b):
    if a is b:
        return FALSE
    n = a.sort
    ra, rb = srange(a), srange(b)
    if ra[1] < rb[0]:
        return TRUE
    if ra[0] >= rb[1]:
        return FALSE
    if isc(b) and a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
        return Ite(a.args[0], Slt(a.args[1], b), Slt(a.args[2], b))
    if isc(a) and b.op == 'ite' and (isc(b.args[1]) or isc(b.args[2])):
        return Ite(b.args[0], Slt(a, b.args[1]), Slt(a, b.args[2]))
    if ra[0] >= 0 and rb[0] >= 0:
        return Ult(a, b)
    if (a.op == 'lin' or b.op == 'lin') and ra != FULL(n) and rb != FULL(n):
        r = _cmplin(a, b, n)
        if r is not None:
            return r
    return mk('slt', (a, b), 'B')


def FULL(n):
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1)


def _cmplin(a, b, n):
    """a < b as mathematical integers, both known not to overflow, in a canonical form:
    positive part < negative part, the atom with the highest id on the right"""
    la, lb = lin_of(a), lin_of(b)
    ca, cb = sgn(la[0], n), sgn(lb[0], n)
    co = {}
    for k, t in la[1]:
        co[t.id] = (sgn(k, n), t)
    for k, t in lb[1]:
        k0 = co.get(t.id, (0, t))[0]
        co[t.id] = (k0 - sgn(k, n), t)
    c = ca - cb                       # sum(k*t) + c < 0
    co = [(k, t) for k, t in co.values() if k]
    if not co:
        return boolc(c < 0)
    tot = abs(c)
    for k, t in co:
        r = srange(t)
        if r[0] < 0:
            return None
        tot += abs(k) * r[1]
    if tot > 1 << (n - 2):
        return None
    if len(co) == 1:
        k, t = co[0]
        if k > 0:                     # k*t < -c
            if -c <= 0:
                return FALSE
            return Ult(t, bv((-c + k - 1) // k, n))
        if c < 0:                     # c < -k*t
            return TRUE
        return Ult(bv(c // -k, n), t)
    lead = max(co, key=lambda p: p[1].id)
    neg = lead[0] > 0
    if neg:                           # not (-d - 1 < 0)
        co = [(-k, t) for k, t in co]
        c = -c - 1
    l = lin_mk(max(c, 0), [(k, t) for k, t in co if k > 0], n)
    r = lin_mk(max(-c, 0), [(-k, t) for k, t in co if k < 0], n)
    x = mk('ult', (l, r), 'B')
    return Not(x) if neg else x


def Sle(a, b):
    return Not(Slt(b, a))


def Rlt(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return boolc(a.val < b.val)
    return mk('rlt', (a, b), 'B')


def Rle(a, b):
    return Not(Rlt(b, a))


# ---------------------------------------------------------------- bit ops
def Extract(hi, lo, a):
    n = a.sort
    w = hi - lo + 1
    if w == n:
        return a
    if isc(a):
        return bv(a.val >> lo, w)
    if a.op == 'zext':
        m = a.args[0].sort
        if lo >= m:
            return bv(0, w)
        if hi < m:
            return Extract(hi, lo, a.args[0])
        return ZExt(Extract(m - 1, lo, a.args[0]), w)
    if a.op == 'extract':
        l0 = a.val[1]
        return Extract(hi + l0, lo + l0, a.args[0])
    if a.op == 'concat':
        wl = a.args[1].sort
        if hi < wl:
            return Extract(hi, lo, a.args[1])
        if lo >= wl:
            return Extract(hi - wl, lo - wl, a.args[0])
        return Concat(Extract(hi - wl, 0, a.args[0]), Extract(wl - 1, lo, a.args[1]))
    if a.op == 'ite':
        if isc(a.args[1]) or isc(a.args[2]) or a.args[1].op in ('zext', 'concat') or a.args[2].op in ('zext', 'concat'):
            return Ite(a.args[0], Extract(hi, lo, a.args[1]), Extract(hi, lo, a.args[2]))
    if a.op in ('bvand', 'bvor', 'bvxor'):
        f = {'bvand': BvAnd, 'bvor': BvOr, 'bvxor': BvXor}[a.op]
        return f(Extract(hi, lo, a.args[0]), Extract(hi, lo, a.args[1]))
    if a.op == 'bvnot':
        return BvNot(Extract(hi, lo, a.args[0]))
    if a.op == 'lin' and lo == 0:
        return lin_mk(a.val[0], [(k, Extract(hi, 0, t)) for k, t in zip(a.val[1:], a.args)], w) \
            if all(t.op in ('zext', 'ite', 'const') for t in a.args) else mk('extract', (a,), w, (hi, lo))
    return mk('extract', (a,), w, (hi, lo))


def Concat(a, b):
    if isc(a) and isc(b):
        return bv((a.val << b.sort) | b.val, a.sort + b.sort)
    if isc(a) and a.val == 0:
        return ZExt(b, a.sort + b.sort)
    if a.op == 'extract' and b.op == 'extract' and a.args[0] is b.args[0] and a.val[1] == b.val[0] + 1:
        return Extract(a.val[0], b.val[1], a.args[0])
    if a.op == 'zext':
        return ZExt(Concat(a.args[0], b), a.sort + b.sort)
    if b.op == 'concat':
        return Concat(Concat(a, b.args[0]), b.args[1])
    if a.op == 'concat' and isc(b) and isc(a.args[1]):
        return Concat(a.args[0], Concat(a.args[1], b))
    return mk('concat', (a, b), a.sort + b.sort)


def ZExt(a, n):
    if a.sort == n:
        return a
    assert a.sort < n
    if isc(a):
        return bv(a.val, n)
    if a.op == 'zext':
        return ZExt(a.args[0], n)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
        return Ite(a.args[0], ZExt(a.args[1], n), ZExt(a.args[2], n))
    return mk('zext', (a,), n)


def SExt(a, n):
    if a.sort == n:
        return a
    if isc(a):
        return bv(sgn(a.val, a.sort), n)
    if a.op == 'zext' or urange(a)[1] < (1 << (a.sort - 1)):
        return ZExt(a, n)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
        return Ite(a.args[0], SExt(a.args[1], n), SExt(a.args[2], n))
    return mk('sext', (a,), n)


def pieces(t):
    """t as list of (lo, width, term|None for zero) low to high"""
    n = t.sort
    if isc(t):
        if t.val == 0:
            return [(0, n, None)]
        return [(0, n, t)]
    if t.op == 'zext':
        p = pieces(t.args[0])
        return p + [(t.args[0].sort, n - t.args[0].sort, None)]
    if t.op == 'concat':
        lo = pieces(t.args[1])
        w = t.args[1].sort
        return lo + [(l + w, k, x) for l, k, x in pieces(t.args[0])]
    return [(0, n, t)]


def from_pieces(ps, n):
    ps = sorted(ps, key=lambda p: p[0])
    r = None
    for lo, w, x in ps:
        part = bv(0, w) if x is None else x
        r = part if r is None else Concat(part, r)
    assert r.sort == n
    return r


def _zeros(t):
    return [(lo, w) for lo, w, x in pieces(t) if x is None]


def BvOr(a, b):
    n = a.sort
    if isc(a):
        a, b = b, a
    if isc(a) and isc(b):
        return bv(a.val | b.val, n)
    if a is b:
        return a
    if isc(b):
        if b.val == 0:
            return a
        if b.val == (1 << n) - 1:
            return b
    pa, pb = pieces(a), pieces(b)
    if any(x is None for _, _, x in pa) and any(x is None for _, _, x in pb):
        r = _disjoint_or(a, b, pa, pb, n)
        if r is not None:
            return r
    if a.op == 'ite' and isc(b) and isc(a.args[1]) and isc(a.args[2]):
        return Ite(a.args[0], BvOr(a.args[1], b), BvOr(a.args[2], b))
    if a.id > b.id:
        a, b = b, a
    return mk('bvor', (a, b), n)


def _disjoint_or(a, b, pa, pb, n):
    cuts = sorted({lo for lo, w, _ in pa} | {lo for lo, w, _ in pb} | {n})
    out = []
    for i in range(len(cuts) - 1):
        lo, hi = cuts[i], cuts[i + 1] - 1
        xa = _part(pa, lo, hi)
        xb = _part(pb, lo, hi)
        if xa is None and xb is None:
            out.append((lo, hi - lo + 1, None))
        elif xa is None:
            out.append((lo, hi - lo + 1, xb))
        elif xb is None:
            out.append((lo, hi - lo + 1, xa))
        else:
            return None
    return from_pieces(out, n)


def _part(ps, lo, hi):
    for l, w, x in ps:
        if l <= lo and hi < l + w:
            if x is None:
                return None
            r = Extract(hi - l, lo - l, x)
            if isc(r) and r.val == 0:
                return None
            return r
    raise AssertionError


def BvAnd(a, b):
    n = a.sort
    if isc(a):
        a, b = b, a
    if isc(a) and isc(b):
        return bv(a.val & b.val, n)
    if a is b:
        return a
    if isc(b):
        m = b.val
        if m == 0:
            return b
        if m == (1 << n) - 1:
            return a
        # contiguous mask
        lo = (m & -m).bit_length() - 1
        hi = m.bit_length() - 1
        if m == ((1 << (hi + 1)) - 1) ^ ((1 << lo) - 1):
            mid = Extract(hi, lo, a)
            r = mid if lo == 0 else Concat(mid, bv(0, lo))
            return ZExt(r, n)
        if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
            return Ite(a.args[0], BvAnd(a.args[1], b), BvAnd(a.args[2], b))
    if a.id > b.id:
        a, b = b, a
    return mk('bvand', (a, b), n)


def BvXor(a, b):
    n = a.sort
    if isc(a):
        a, b = b, a
    if isc(a) and isc(b):
        return bv(a.val ^ b.val, n)
    if a is b:
        return bv(0, n)
    if isc(b) and b.val == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('bvxor', (a, b), n)


def BvNot(a):
    if isc(a):
        return bv(~a.val, a.sort)
    if a.op == 'bvnot':
        return a.args[0]
    return mk('bvnot', (a,), a.sort)


def ShlC(a, k):
    n = a.sort
    if k == 0:
        return a
    if k >= n:
        return bv(0, n)
    return Concat(Extract(n - 1 - k, 0, a), bv(0, k))


def LshrC(a, k):
    n = a.sort
    if k == 0:
        return a
    if k >= n:
        return bv(0, n)
    return ZExt(Extract(n - 1, k, a), n)


def Shl(a, k):
    """k same width as a, saturating semantic (SMT)"""
    if isc(k):
        return ShlC(a, k.val)
    return mk('shl', (a, k), a.sort)


def Lshr(a, k):
    if isc(k):
        return LshrC(a, k.val)
    return mk('lshr', (a, k), a.sort)


def Ashr(a, k):
    n = a.sort
    if urange(a)[1] < (1 << (n - 1)):
        return Lshr(a, k)
    if isc(k):
        if isc(a):
            return bv(sgn(a.val, n) >> min(k.val, n), n)
        kk = min(k.val, n - 1)
        return SExt(Extract(n - 1, kk, a), n)
    return mk('ashr', (a, k), n)


def Udiv(a, b):
    n = a.sort
    if isc(a) and isc(b) and b.val:
        return bv(a.val // b.val, n)
    if isc(b) and b.val:
        if b.val == 1:
            return a
        if b.val & (b.val - 1) == 0:
            return LshrC(a, b.val.bit_length() - 1)
        r = _divlin(a, b.val, n)
        if r is not None:
            return r
    return mk('udiv', (a, b), n)


def _divlin(a, d, n):
    """(c + sum k_i x_i) / d where no overflow and all k_i divisible by d"""
    if a.op == 'lin':
        lo, hi = urange(a)
        if (lo, hi) == (0, (1 << n) - 1):
            return None
        c, p = lin_of(a)
        if all(k % d == 0 for k, _ in p):
            return lin_mk(c // d, [(k // d, t) for k, t in p], n)
    return None


def Urem(a, b):
    n = a.sort
    if isc(a) and isc(b) and b.val:
        return bv(a.val % b.val, n)
    if isc(b) and b.val:
        if b.val & (b.val - 1) == 0:
            k = b.val.bit_length() - 1
            return bv(0, n) if k == 0 else ZExt(Extract(k - 1, 0, a), n)
        if a.op == 'lin':
            q = _divlin(a, b.val, n)
            if q is not None:
                return Sub(a, Mul(q, b))
    return mk('urem', (a, b), n)


def Sdiv(a, b):
    n = a.sort
    h = 1 << (n - 1)
    if isc(a) and isc(b) and b.val:
        x, y = sgn(a.val, n), sgn(b.val, n)
        q = abs(x) // abs(y)
        return bv(q if (x < 0) == (y < 0) else -q, n)
    if srange(a)[0] >= 0 and srange(b)[0] >= 0:
        return Udiv(a, b)
    return mk('sdiv', (a, b), n)


def Srem(a, b):
    n = a.sort
    if isc(a) and isc(b) and b.val:
        x, y = sgn(a.val, n), sgn(b.val, n)
        r = abs(x) % abs(y)
        return bv(r if x >= 0 else -r, n)
    if srange(a)[0] >= 0 and srange(b)[0] >= 0:
        return Urem(a, b)
    return mk('srem', (a, b), n)


# ---------------------------------------------------------------- known-literal refinement
def refine(t, known, depth=12):
    """simplify ite's (top level and inside sums) with literals known true"""
    op = t.op
    if op != 'ite' and op != 'lin':
        return t
    if isinstance(known, Lits):
        k = ('r', t.id)
        r = known.memo.get(k)
        if r is None:
            r = _refine(t, known)
            known.memo[k] = r
        return r
    return _refine(t, known)


def _refine(t, known):
    if t.op == 'ite':
        v = lit_value(t.args[0], known)
        if v is True:
            return refine(t.args[1], known)
        if v is False:
            return refine(t.args[2], known)
        if isinstance(known, Lits) and known.depth < 2:
            g, a, b = t.args
            x, y = a, b
            if has_ite(a):
                k = under(known, g)
                if k is not None:
                    x = refine(a, k)
            if has_ite(b):
                k = under(known, Not(g))
                if k is not None:
                    y = refine(b, k)
            if x is not a or y is not b:
                return Ite(g, x, y)
        return t
    ch = False
    parts = []
    for k, a in zip(t.val[1:], t.args):
        b = refine(a, known) if a.op == 'ite' else a
        if b is not a:
            ch = True
        parts.append((k, b))
    if not ch:
        return t
    c = t.val[0]
    out = []
    for k, a in parts:
        ca, pa = lin_of(a)
        c += k * ca
        out += [(k * kk, x) for kk, x in pa]
    return lin_mk(c, out, t.sort)


def has_ite(t):
    return t.op == 'ite' or t.op == 'lin' and any(a.op == 'ite' for a in t.args)


def under(known, g):
    """what else is known where g holds, when clauses of known make g tell something; else None"""
    r = known.unders.get(g.id, 0)
    if r != 0:
        return r
    idx = known.clauses()
    new = {}
    todo = list(g.args) if g.op == 'and' else [g]
    use = False
    while todo and len(new) < 200:
        l = todo.pop()
        if l.id in known or l.id in new:
            continue
        new[l.id] = l
        for c in idx.get(Not(l).id, ()):
            left = None
            for x in c.args:
                if x.id in new or x.id in known:
                    left = None
                    break
                n = Not(x)
                if n.id in new or n.id in known:
                    continue
                if left is not None:
                    left = None
                    break
                left = x
            if left is not None:
                use = True
                todo += list(left.args) if left.op == 'and' else [left]
    r = None
    if use:
        r = Lits(known)
        r.update(new)
        r.depth = known.depth + 1
    known.unders[g.id] = r
    return r


class Lits(dict):
    """known-true literals (id -> Term) with a memo of evaluated conditions"""
    __slots__ = ('memo', 'bnd', 'depth', 'unders', 'idx')

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.memo = {}
        self.bnd = None
        self.depth = 0
        self.unders = {}
        self.idx = None

    def clauses(self):
        """literal -> clauses of at most four literals that have it"""
        if self.idx is None:
            d = {}
            for t in self.values():
                if t.op == 'or' and len(t.args) <= 4:
                    for x in t.args:
                        d.setdefault(x.id, []).append(t)
            self.idx = d
        return self.idx

    def bounds(self):
        if self.bnd is None:
            d = {}
            for t in self.values():
                at = batom(t)
                if at is not None:
                    o = d.get(at[0].id)
                    d[at[0].id] = (at[1], at[2]) if o is None else (max(o[0], at[1]), min(o[1], at[2]))
            self.bnd = d
        return self.bnd


_nomemo = {}


def lit_value(c, known):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    i = c.id
    if i in known:
        return True
    op = c.op
    if op != 'and' and op != 'or':
        if op == 'not':
            v = lit_value(c.args[0], known)
            return None if v is None else (not v)
        if Not(c).id in known:
            return False
        if (op == 'ult' or op == 'eq') and isinstance(known, Lits):
            bd = known.bounds()
            if bd:
                at = batom(c)
                if at is not None:
                    o = bd.get(at[0].id)
                    if o is not None:
                        if at[1] <= o[0] and o[1] <= at[2]:
                            return True
                        if o[1] < at[1] or at[2] < o[0]:
                            return False
            a, b = c.args
            if isinstance(a.sort, int) and a.sort >= 32 and (a.op == 'lin' or b.op == 'lin' or a.op == 'ite' or b.op == 'ite'):
                mk_ = ('q', i)
                if mk_ in known.memo:
                    return known.memo[mk_]
                v = _litlin(op, a, b, known)
                known.memo[mk_] = v
                return v
        return None
    memo = known.memo if isinstance(known, Lits) else {}
    if i in memo:
        return memo[i]
    if Not(c).id in known:
        memo[i] = False
        return False
    if op == 'and':
        r = True
        for a in c.args:
            v = lit_value(a, known)
            if v is False:
                r = False
                break
            if v is None:
                r = None
    else:
        r = False
        for a in c.args:
            v = lit_value(a, known)
            if v is True:
                r = True
                break
            if v is None:
                r = None
    memo[i] = r
    return r


def krange(t, known):
    """signed range of a term under known literals; None if it may wrap"""
    n = t.sort
    h = 1 << (n - 1)
    if t.op == 'ite':
        v = lit_value(t.args[0], known)
        if v is True:
            return krange(t.args[1], known)
        if v is False:
            return krange(t.args[2], known)
        a, b = krange(t.args[1], known), krange(t.args[2], known)
        if a is None or b is None:
            return None
        return (min(a[0], b[0]), max(a[1], b[1]))
    if t.op == 'lin':
        lo = hi = sgn(t.val[0], n)
        for k, a in zip(t.val[1:], t.args):
            ks = sgn(k, n)
            r = krange(a, known)
            if r is None:
                return None
            x, y = ks * r[0], ks * r[1]
            lo += min(x, y)
            hi += max(x, y)
        if lo >= -h and hi < h:
            return (lo, hi)
        return None
    r = srange(t)
    bd = known.bounds().get(t.id)
    if bd is not None and bd[1] < h:
        r = (max(r[0], bd[0]), min(r[1], bd[1]))
    return None if r == FULL(n) else r


def _litlin(op, a, b, known):
    d = Sub(a, b)
    r = krange(d, known)
    if r is None:
        return None
    if op == 'eq':
        if r[0] > 0 or r[1] < 0:
            return False
        if r == (0, 0):
            return True
        return None
    ra, rb = krange(a, known), krange(b, known)
    if ra is None or rb is None or ra[0] < 0 and ra[1] >= 0 or rb[0] < 0:
        return None
    if ra[1] < 0:
        return False
    if r[1] < 0:
        return True
    if r[0] >= 0:
        return False
    return None
