"""Counterexamples: from a solver model to concrete arguments of a contract function."""
import z3
from values import *
from terms import *
from fractions import Fraction


class NoValue(Exception):
    pass


class Concrete:
    def __init__(self, ex, solver, model):
        self.ex, self.s, self.m = ex, solver, model
        self.depth = 0

    def term(self, t):
        e = self.m.eval(self.s.z(t), model_completion=True)
        if z3.is_bv_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_algebraic_value(e):
            return float(e.approx(20).as_fraction())
        if z3.is_int_value(e):
            return e.as_long()
        raise NoValue(str(e)[:60])

    def value(self, v, tid):
        """JSON form of a value"""
        ex, T = self.ex, self.ex.T
        self.depth += 1
        try:
            if self.depth > 12:
                raise NoValue('deep')
            k = T.kind(tid)
            if k == 'time':
                return {'t': str(self.sint(self.term(v), 64))}
            u = T.und(tid)
            if isinstance(v, Term):
                r = self.term(v)
                if isinstance(r, bool) or isinstance(r, float):
                    return r
                n = u.get('name', '')
                if n.startswith('int'):
                    r = self.sint(r, v.sort)
                return str(r)
            if isinstance(v, VStr):
                n = self.term(v.len)
                if n > 200000:
                    raise NoValue('long')
                b = bytes(self.term(ex.W.select(v.arr, Add(v.off, bv(i, 64)))) & 255 for i in range(n))
                return {'x': b.hex()}
            if isinstance(v, VStruct):
                return {'f': [self.value(x, f['t']) for x, f in zip(v.fields, u['f'])]}
            if isinstance(v, VPtr):
                for g, (obj, path) in v.alts:
                    if self.term(g):
                        c = ex.W.content0(obj)
                        return {'p': self.value(c, u['e'])}
                return None
            if isinstance(v, VSlice):
                n = self.term(v.len)
                if n > 200000:
                    raise NoValue('long')
                for g, (obj, path) in v.alts:
                    if self.term(g):
                        arr = ex.W.content0(obj)
                        els = [ex.W.select(arr, Add(v.off, bv(i, 64))) for i in range(n)]
                        if T.kind(u['e']) == 'basic' and T.und(u['e']).get('name') in ('uint8', 'byte'):
                            return {'x': bytes(self.term(e) & 255 for e in els).hex()}
                        return {'s': [self.value(e, u['e']) for e in els]}
                return None
            if isinstance(v, VIface):
                for g, k, p in v.alts:
                    if self.term(g):
                        raise NoValue('interface')
                return None
            raise NoValue(type(v).__name__)
        finally:
            self.depth -= 1

    def sint(self, r, w):
        return r - (1 << w) if r >= 1 << (w - 1) else r


def lens(ex, v, tid, out, d=0):
    if d > 4:
        return
    if isinstance(v, (VStr, VSlice)):
        out.append(v.len)
    elif isinstance(v, VStruct):
        for x, f in zip(v.fields, ex.T.und(tid)['f']):
            lens(ex, x, f['t'], out, d + 1)
    elif isinstance(v, VPtr) and v.alts:
        lens(ex, ex.W.content0(v.alts[0][1][0]), ex.T.und(tid)['e'], out, d + 1)


def counterexample(ex, solver, o, args, params, deadline):
    """arguments for which the obligation is violated in the solver's model, smallest strings first"""
    import time
    ls = []
    for v, p in zip(args, params):
        lens(ex, v, p['t'], ls)
    for lim in (40, 300, 70000):
        if time.time() > deadline:
            return None
        small = [Ule(l, bv(lim, 64)) for l in ls if not isc(l)]
        st, m = solver.check(ex, [o.pc, Not(o.cond)] + small, timeout=8000, model=True)
        if st == 'sat' and m is not None:
            c = Concrete(ex, solver, m)
            try:
                return [c.value(v, p['t']) for v, p in zip(args, params)]
            except NoValue:
                return None
    return None
