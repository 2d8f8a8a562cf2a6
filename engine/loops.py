"""Loop cutting: an inductive invariant is inferred as a relation between the state of the
real loop and the state of a ghost (specification) loop running in lockstep, by Houdini-style
elimination over a fixed family of candidates.  Every candidate that survives is re-proved
as an obligation."""
import os
import solve
from execu import *


class Leaf:
    __slots__ = ('loc', 'path', 'tid', 'kind', 'entry', 'ghost', 'choice', 'tried', 'val', 'obj', 'caplen', 'keepalts', 'capentry', 'sub', 'nnlen', 'parent')

    def __init__(self, loc, path, tid, kind, entry, ghost):
        self.loc, self.path, self.tid, self.kind, self.entry, self.ghost = loc, path, tid, kind, entry, ghost
        self.choice = 'entry'
        self.tried = set()
        self.val = None
        self.obj = None
        self.caplen = False
        self.keepalts = False
        self.nnlen = True
        self.parent = None
        self.capentry = False

    def __repr__(self):
        return '<%s %s %s %s %s>' % (self.loc, self.path, self.kind, self.choice, 'G' if self.ghost else 'R')


_W = None
TRACE = os.environ.get('TRACE')


def getp(v, path):
    for p in path:
        v = v.fields[p] if isinstance(v, VStruct) else v.items[p] if isinstance(v, VTuple) else _W.select(v, bv(p, 64))
    return v


def setp(v, path, new):
    if not path:
        return new
    if isinstance(v, VStruct):
        fs = list(v.fields)
        fs[path[0]] = setp(fs[path[0]], path[1:], new)
        return VStruct(tuple(fs))
    if not isinstance(v, VTuple):
        return _W.store(v, bv(path[0], 64), new)
    fs = list(v.items)
    fs[path[0]] = setp(fs[path[0]], path[1:], new)
    return VTuple(tuple(fs))


def diff(ex, a, b, tid, path, out):
    if a is b:
        return
    T = ex.T
    if isinstance(a, VStruct):
        fl = T.und(tid)['f']
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            diff(ex, x, y, fl[i]['t'], path + (i,), out)
        return
    if isinstance(a, VTuple):
        es = T.und(tid)['es']
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            diff(ex, x, y, es[i], path + (i,), out)
        return
    if isinstance(a, Term):
        k = 'term'
    elif isinstance(a, VStr):
        k = 'str'
    elif isinstance(a, VSlice):
        k = 'slice'
    elif isinstance(a, VIface):
        k = 'iface'
    elif isinstance(a, VPtr):
        k = 'ptr'
    elif isinstance(a, Arr):
        k = 'arr'
        u = T.und(tid) if not isinstance(tid, tuple) else {}
        if u.get('k') == 'array' and u['n'] <= 8 and isinstance(ex.W.zero(T.elem(tid)), Term):
            # a short buffer is followed element by element
            for i in range(u['n']):
                out.append((path + (i,), 'term', T.elem(tid)))
            return
    else:
        raise LoopGiveUp('loop changes a %s' % type(a).__name__)
    out.append((path, k, tid))


def objs_of(v):
    return [a[1][0] for a in v.alts]


class Cut:
    def __init__(self, ex, fr, h, inc):
        global _W
        _W = ex.W
        self.ex, self.fr, self.h = ex, fr, h
        self.hs0, self.henv0 = ex.enter(fr, h, inc)
        self.leaves = {}
        self.order = []
        self.facts = None
        self.dead_facts = set()
        self.entry_ok = {}
        self.first = None
        self.first_memo = {}
        self.phis = {}
        for ins in fr.info.f['blocks'][h]['i']:
            if ins['op'] == 'Phi':
                self.phis[ins['n']] = ins['t']
        self.ghost = self.pick_ghost()
        self.gobjs = set()
        for g in ex.active + ([self.ghost] if self.ghost else []):
            self.gobjs.add(g['obj'])
        self.name = ex.freshname('loop')
        self.round = 0
        self.retries = 0

    def pick_ghost(self):
        ex = self.ex
        for g in ex.ghosts:
            if g in ex.active:
                continue
            cur = self.hs0.mem.get(g['obj'])
            if cur is g['init']:
                return g
        return None

    # ---- types of locations
    def loc_tid(self, loc):
        if loc[0] == 'env':
            return self.phis[loc[1]]
        obj = loc[1]
        if obj[0] == 'L':
            return obj[3]
        if obj[0] == 'G':
            return self.ex.T.elem(self.ex.P.globals[obj[1]]['t'])
        t = self.ex.otype.get(obj)
        if t is None:
            raise LoopGiveUp('object of unknown type changed in loop %r' % (obj,))
        return t

    # ---- head state
    def build_head(self):
        ex, W = self.ex, self.ex.W
        self.round += 1
        s = self.hs0.fork()
        env = dict(self.henv0)
        self.facts_now = []
        # ghosts first
        for lf in sorted(self.order, key=lambda l: (not l.ghost)):
            lf.obj = None
            nm = '%s.%d.%s%s' % (self.name, self.round, lf.loc[1] if lf.loc[0] == 'env' else '_'.join(str(x) for x in lf.loc[1][:2]), ''.join('.%d' % p for p in lf.path))
            if lf.choice == 'entry':
                lf.val = lf.entry
            elif lf.choice == 'free':
                lf.val = self.free_value(lf, nm, s)
                if lf.kind == 'term' and lf.entry.sort == 64 and not ex.T.is_time(lf.tid) and ('nonneg', (lf.loc, lf.path)) not in self.dead_facts:
                    W.bounded(lf.val)       # the loop fact 'nonneg' is part of the invariant
            else:
                lf.val = self.related_value(lf, nm, s)
            if lf.loc[0] == 'env':
                env[lf.loc[1]] = setp(env[lf.loc[1]], lf.path, lf.val)
            else:
                cur = ex.getobj(s, lf.loc[1])
                s.mem[lf.loc[1]] = setp(cur, lf.path, lf.val)
        # facts
        for f in self.all_facts():
            c = self.fact_term(f, lambda l: l.val)
            if not ex.assume(s, c):
                return None
        return s, env

    def new_obj(self, s, lf, arr, et, nm):
        ex = self.ex
        fresh = all(o[0] == 'A' and o[1] > ex.fresh_base for o in objs_of(lf.entry))
        if fresh:
            o = ex.newobj()
            ex.otype[o] = ('arr', et)
        else:
            o = ('L', nm + '$', (), ('arr', et))
        s.mem[o] = arr
        return o

    def free_value(self, lf, nm, s):
        ex, W = self.ex, self.ex.W
        if lf.kind == 'term':
            return var(nm, lf.entry.sort)
        if lf.kind == 'arr':
            et = lf.tid[1] if isinstance(lf.tid, tuple) else ex.T.elem(lf.tid)
            return ABase(nm + '@', (), et)
        if lf.kind == 'str':
            return W.fresh(ex.string_tid(), nm, ())
        if lf.kind == 'iface':
            return W.fresh(lf.tid, nm, ())
        if lf.kind == 'slice':
            et = ex.T.elem(lf.tid)
            if lf.keepalts:
                ln = W.length(nm, ())
                off = var(nm + '!off', 64)
                cap = self.cap_for(lf, nm, ln)
                return VSlice(lf.entry.alts, off, ln, cap)
            ln = W.length(nm, ())
            arr = ABase(nm + '$', (), et)
            nn = Ne(ln, Z64) if self.nn_at_entry(lf) else Or(var(nm + '!nn', 'B'), Ne(ln, Z64))
            o = self.new_obj(s, lf, arr, et, nm)
            lf.obj = o
            return VSlice(((nn, (o, ())),), Z64, ln, self.cap_for(lf, nm, ln))
        if lf.kind == 'ptr':
            if lf.entry.alts:
                raise LoopGiveUp('loop changes a pointer')
            et = ex.T.elem(lf.tid)
            o = ex.newobj()
            ex.otype[o] = et
            s.mem[o] = W.fresh(et, nm + '*', ())
            lf.obj = o
            return VPtr(((var(nm + '!nn', 'B'), (o, ())),))
        raise LoopGiveUp('havoc of ' + lf.kind)

    def cap_for(self, lf, nm, ln):
        W = self.ex.W
        if lf.caplen:
            return ln
        cap = var(nm + '!cap', 64)
        W.lenbound[cap.id] = (cap, ln)
        terms._rng.setdefault(cap.id, (0, W.maxlen))
        return cap

    def measure(self, lf, val, width):
        """numeric measure of a ghost leaf"""
        t = val if lf.kind == 'term' else val.len
        if t.sort == width:
            return t
        if t.sort > width:
            return Extract(width - 1, 0, t)
        return ZExt(t, width)

    def related_value(self, lf, nm, s):
        ex, W = self.ex, self.ex.W
        kind, gk, sg = lf.choice
        g = self.leaves[gk]
        if kind == 'num':
            gv, ge = self.measure(g, g.val, lf.entry.sort), self.measure(g, g.entry, lf.entry.sort)
            if sg == 1:
                return Add(gv, Sub(lf.entry, ge))
            return Sub(Add(lf.entry, ge), gv)
        if kind == 'same':
            return g.val
        if kind == 'tail':
            # slice/string s[k:] with k advancing as the ghost number
            gv, ge = self.measure(g, g.val, 64), self.measure(g, g.entry, 64)
            d = Sub(gv, ge)
            if lf.kind == 'str':
                return VStr(lf.entry.arr, Add(lf.entry.off, d), Sub(lf.entry.len, d))
            return VSlice(lf.entry.alts, Add(lf.entry.off, d), Sub(lf.entry.len, d), Sub(lf.entry.cap, d))
        if kind == 'seq':
            if lf.kind == 'str':
                if g.kind == 'str':
                    return g.val
                return VStr(ex.slice_arr(s, g.val), g.val.off, g.val.len)
            if g.kind == 'str':
                arr, off = g.val.arr, g.val.off
            else:
                arr, off = ex.slice_arr(s, g.val), g.val.off
            ln = g.val.len
            nn = Ne(ln, Z64) if self.nn_at_entry(lf) else Or(var(nm + '!nn', 'B'), Ne(ln, Z64))
            o = self.new_obj(s, lf, arr, ex.T.elem(lf.tid), nm)
            lf.obj = o
            return VSlice(((nn, (o, ())),), off, ln, self.cap_for(lf, nm, ln))
        raise AssertionError(kind)

    # ---- facts
    def all_facts(self):
        return [f for f in self.candidate_facts() if f not in self.dead_facts and self.fact_at_entry(f)]

    def candidate_facts(self):
        ex = self.ex
        out = []
        lens = self.const_lens()
        free = [l for l in self.order if l.choice == 'free']
        byts = {}
        for l in free:
            if l.kind == 'term' and l.entry.sort == 8:
                byts.setdefault(l.loc, []).append(l)
        words = [tuple((l.loc, l.path) for l in b) for b in byts.values() if len(b) == 4]
        for l in free:
            if l.kind == 'term' and l.entry.sort == 32 and not ex.signed(l.tid):
                for b in words:
                    out.append(('cat4', (l.loc, l.path)) + b)
            if l.kind == 'term' and isinstance(l.entry.sort, int) and l.entry.sort == 64 and not ex.T.is_time(l.tid):
                for L in lens:
                    out.append(('ulec', (l.loc, l.path), L))
                for m in free:
                    if m.kind in ('slice', 'str'):
                        out.append(('ulel', (l.loc, l.path), (m.loc, m.path)))
                out.append(('nonneg', (l.loc, l.path)))
            if l.kind == 'slice' and l.keepalts:
                out.append(('offlen', (l.loc, l.path)))
            if l.kind == 'term' and isinstance(l.entry.sort, int) and l.entry.sort in (8, 16, 32) and isc(l.entry):
                out.append(('uge', (l.loc, l.path)))
            if l.kind == 'term' and l.entry.sort == 32 and ex.signed(l.tid):
                for m in free:
                    if m.kind == 'slice' and m.loc == l.loc:
                        out.append(('lenof', (l.loc, l.path), (m.loc, m.path)))
            if l.kind == 'term' and l.entry.sort == 'B':
                for m in free:
                    if m.kind == 'slice':
                        out.append(('beql', (l.loc, l.path), (m.loc, m.path)))
                    elif m.kind == 'term' and isinstance(m.entry.sort, int) and m.entry.sort == 32 and not ex.T.is_time(m.tid):
                        out.append(('bimp', (l.loc, l.path), (m.loc, m.path)))
        return out

    def fact_at_entry(self, f):
        """candidates have to hold when the loop is entered (re-proved as an obligation at the end)"""
        if f not in self.entry_ok:
            c = self.fact_term(f, lambda l: l.entry)
            self.entry_ok[f] = c is TRUE or self.ex.solver.valid(self.hs0.pc.term(), c, self.ex)
        return self.entry_ok[f]

    def nn_at_entry(self, lf):
        if 'nnentry' not in lf.tried:
            lf.tried.add('nnentry')
            c = AndL(self.nn_term(lf, lf.entry))
            if not (c is TRUE or self.ex.solver.valid(self.hs0.pc.term(), c, self.ex)):
                lf.nnlen = False
        return lf.nnlen

    def const_lens(self):
        if self.facts is not None:
            return self.facts
        ex = self.ex
        out = {}

        def visit(v, d):
            if d > 3:
                return
            if isinstance(v, (VSlice, VStr)):
                t = v.len
                if not isc(t):
                    out[t.id] = t
                else:
                    pass
            elif isinstance(v, VStruct):
                for x in v.fields:
                    visit(x, d + 1)
        for v in self.henv0.values():
            visit(v, 0)
        for k, v in self.hs0.mem.items():
            visit(v, 0)
        self.facts = list(out.values())[:14]
        return self.facts

    def fact_term(self, f, val):
        if f[0] == 'ulec':
            return Ule(val(self.leaves[f[1]]), f[2])
        if f[0] == 'ulel':
            return Ule(val(self.leaves[f[1]]), val(self.leaves[f[2]]).len)
        if f[0] == 'nonneg':
            v = val(self.leaves[f[1]])
            return And(Not(Slt(v, bv(0, v.sort))), Ule(v, bv(self.ex.W.maxlen, 64)))
        if f[0] == 'uge':
            l = self.leaves[f[1]]
            return Ule(l.entry, val(l))
        if f[0] == 'beql':       # a flag that tells whether a list is empty
            return Eq(val(self.leaves[f[1]]), Ne(val(self.leaves[f[2]]).len, Z64))
        if f[0] == 'cat4':       # a number kept as four bytes
            v = [val(self.leaves[k]) for k in f[2:]]
            return Eq(val(self.leaves[f[1]]), Concat(v[3], Concat(v[2], Concat(v[1], v[0]))))
        if f[0] == 'lenof':      # a counter of the elements of a list
            return Eq(val(self.leaves[f[1]]), Extract(31, 0, val(self.leaves[f[2]]).len))
        if f[0] == 'bimp':
            v = val(self.leaves[f[2]])
            return Implies(Ne(v, bv(0, v.sort)), val(self.leaves[f[1]]))
        if f[0] == 'offlen':
            l = self.leaves[f[1]]
            v = val(l)
            return And(Eq(Add(v.off, v.len), Add(l.entry.off, l.entry.len)), Ule(v.len, l.entry.len))
        raise AssertionError

    # ---- running the body
    def run_body(self, head):
        ex = self.ex
        s, env = head
        s = s.fork()
        ng = len(ex.ghosts)
        if self.ghost:
            ex.active.append(self.ghost)
        try:
            starts = [s]
            self.rank0 = None
            if self.ghost and self.has('Begin'):
                # another iteration (with its preconditions) or the end of the loop
                r = self.gcall('More', s)
                if r is None:
                    return None
                c, s = r
                starts = []
                sm = s.fork()
                if ex.assume(sm, c):
                    r = self.gcall('Begin', sm)
                    if r is not None:
                        sb = r[1].fork() if isinstance(r, tuple) else r.fork()
                        if self.has('Rank'):
                            self.rank0, sb = self.gcall('Rank', sb)
                        starts.append(sb)
                se = s.fork()
                if ex.assume(se, Not(c)):
                    starts.append(se)
            elif self.ghost and self.has('Rank'):
                r = self.gcall('Rank', s)
                if r is None:
                    return None
                self.rank0, s = r
                starts = [s]
            backs, exits = [], []
            inner = None
            for st in starts:
                b1, e1 = ex.region(self.fr, self.h, [('#done', st, dict(env))])
                backs += b1
                exits += e1
                if inner is None:
                    inner = ex.ghosts[ng:]
                    del ex.ghosts[ng:]
            ex.ghosts[ng:] = inner or []
        finally:
            if self.ghost:
                ex.active.pop()
            self.inner_ghosts = ex.ghosts[ng:]
            del ex.ghosts[ng:]
        return backs, exits

    def has(self, m):
        g = self.ghost
        return m in self.ex.P.methods.get(str(g['tid']), {})

    def gcall(self, m, s, optional=False):
        ex, g = self.ex, self.ghost
        fn = ex.P.methods.get(str(g['tid']), {}).get(m)
        if fn is None:
            if optional:
                return (None, s)
            raise Unsupported('ghost without ' + m)
        old = ex.safety
        ex.safety = g['label']
        env = self.fr.env
        try:
            return ex.call(fn, [g['ptr']], s.fork(), 'ghost ' + m)
        finally:
            ex.safety = old
            self.fr.env = env

    def back_state(self, backs, final):
        """merge back edges and run the ghost step; returns (state, env) or None"""
        ex = self.ex
        s, env = ex.enter(self.fr, self.h, backs)
        s = s.fork()
        if self.ghost:
            ng = len(ex.ghosts)
            ex.ghosts.extend(self.inner_ghosts)
            ex.active.append(self.ghost)
            try:
                r = self.gcall('More', s)
                if r is None:
                    return None
                c, s = r
                s = s.fork()
                if final:
                    if not ex.oblige(s, c, 'loop-progress', self.where(), self.ghost['label'],
                                     'the code performs another iteration exactly when the specification does'):
                        return None
                elif not ex.assume(s, c):
                    return None
                r = self.gcall('Step', s)
                if r is None:
                    return None
                s = r[1].fork()
                if self.rank0 is not None:
                    r = self.gcall('Rank', s)
                    rk, s = r
                    s = s.fork()
                    c = And(Slt(rk, self.rank0), Not(Slt(self.rank0, bv(0, rk.sort))))
                    if final:
                        ex.oblige(s, c, 'termination', self.where(), self.ghost['label'], 'ranking function decreases')
            finally:
                ex.active.pop()
                del ex.ghosts[ng:]
        return s, env

    def where(self):
        f = self.fr.info.f
        for ins in f['blocks'][self.h]['i']:
            if ins.get('p'):
                return ins['p']
        return f.get('pos', '')

    def cur_value(self, lf, s, env):
        base = env[lf.loc[1]] if lf.loc[0] == 'env' else self.ex.getobj(s, lf.loc[1])
        return getp(base, lf.path)

    def inv_term(self, lf, s, env):
        """what has to hold at the back edge for the current choice of lf"""
        ex = self.ex
        b = self.cur_value(lf, s, env)
        if lf.choice == 'entry':
            if b is lf.entry:
                return TRUE
            return ex.deq_strict(s, b, lf.entry, lf.tid)
        if lf.choice == 'free':
            cs = []
            if lf.kind == 'slice' and lf.keepalts:
                if [a[1] for a in b.alts] != [a[1] for a in lf.entry.alts]:
                    return FALSE
                cs += [Eq(x[0], y[0]) for x, y in zip(b.alts, lf.entry.alts)]
            if lf.kind == 'slice' and lf.caplen:
                cs.append(Eq(b.len, b.cap))
            cs += self.nn_term(lf, b)
            return AndL(cs)
        kind, gk, sg = lf.choice
        g = self.leaves[gk]
        gb = self.cur_value(g, s, env)
        if kind == 'num':
            gv, ge = self.measure(g, gb, lf.entry.sort), self.measure(g, g.entry, lf.entry.sort)
            e = Add(gv, Sub(lf.entry, ge)) if sg == 1 else Sub(Add(lf.entry, ge), gv)
            return Eq(b, e)
        if kind == 'same':
            return Eq(b, gb)
        if kind == 'tail':
            gv, ge = self.measure(g, gb, 64), self.measure(g, g.entry, 64)
            d = Sub(gv, ge)
            cs = [Eq(b.off, Add(lf.entry.off, d)), Eq(b.len, Sub(lf.entry.len, d))]
            if lf.kind == 'slice':
                cs.append(Eq(b.cap, Sub(lf.entry.cap, d)))
                if [a[1] for a in b.alts] != [a[1] for a in lf.entry.alts]:
                    return FALSE
                for x, y in zip(b.alts, lf.entry.alts):
                    cs.append(Eq(x[0], y[0]))
            elif b.arr is not lf.entry.arr:
                return FALSE
            return AndL(cs)
        if kind == 'seq':
            c = self.seq_eq(s, b, lf, gb, g)
            if lf.kind == 'slice' and lf.caplen:
                c = And(c, Eq(b.len, b.cap))
            return AndL([c] + self.nn_term(lf, b))
        raise AssertionError

    def nn_term(self, lf, b):
        """nil exactly when empty (candidate)"""
        if lf.kind != 'slice' or not lf.nnlen or lf.keepalts:
            return []
        return [Implies(Eq(b.len, Z64), Not(OrL([a[0] for a in b.alts])))]

    def seq_eq(self, s, b, lf, gb, g):
        ex = self.ex
        if lf.kind == 'slice' and g.kind == 'slice':
            return ex.deq(s, b, s, gb, lf.tid)
        if lf.kind == 'str' and g.kind == 'str':
            return ex.deq(s, b, s, gb, lf.tid)
        x = b if lf.kind == 'str' else VStr(ex.slice_arr(s, b) or AZero(bv(0, 8)), b.off, b.len)
        y = gb if g.kind == 'str' else VStr(ex.slice_arr(s, gb) or AZero(bv(0, 8)), gb.off, gb.len)
        return ex.deq(s, x, s, y, ex.string_tid())

    # ---- choices
    def advance(self, lf, s, env):
        ex = self.ex
        if lf.choice != 'free':
            lf.tried.add(lf.choice)
        b = self.cur_value(lf, s, env)
        if lf.kind == 'slice':
            lf.keepalts = bool(lf.entry.alts) and [a[1] for a in lf.entry.alts] == [a[1] for a in b.alts]
            lf.caplen = lf.entry.len is lf.entry.cap and not lf.keepalts and 'nocaplen' not in lf.tried
        if not lf.ghost or True:
            for opt in self.options(lf, b):
                if opt not in lf.tried and self.survives_first(lf, opt):
                    lf.choice = opt
                    return
        lf.choice = 'free'

    def survives_first(self, lf, opt):
        """does the relation hold after the first iteration? (exact: nothing is guessed about that one)"""
        if self.first is None:
            return True
        k = (lf.loc, lf.path, opt)
        r = self.first_memo.get(k)
        if r is None:
            s, env = self.first
            old = lf.choice, lf.nnlen, lf.caplen
            lf.choice, lf.nnlen, lf.caplen = opt, False, False
            try:
                c = self.inv_term(lf, s, env)
                r = c is TRUE or self.ex.solver.valid(s.pc.term(), c, self.ex)
            except Unsupported:
                r = False
            finally:
                lf.choice, lf.nnlen, lf.caplen = old
            if not r:
                lf.tried.add(opt)
            self.first_memo[k] = r
        return r

    def options(self, lf, b):
        ex = self.ex
        out = []
        if lf.ghost and self.ghost is not None and self.has('Independent'):
            return out      # the specification says that its variables are not functions of each other
        mykey = (lf.loc, lf.path)
        for g in self.order:
            if g is lf or g.choice != 'free':
                continue
            if lf.ghost and (not g.ghost or self.order.index(g) > self.order.index(lf)):
                continue
            if not lf.ghost and not g.ghost and (self.ghost is not None or self.order.index(g) > self.order.index(lf)):
                # real-to-real relations: earlier leaves only
                if self.order.index(g) > self.order.index(lf):
                    continue
            gk = (g.loc, g.path)
            if lf.kind == 'term':
                so = lf.entry.sort
                if isinstance(so, int) and not ex.T.is_time(lf.tid):
                    if g.kind == 'term' and isinstance(g.entry.sort, int) and not ex.T.is_time(g.tid):
                        if g.entry.sort == so or (so >= 32 and g.entry.sort >= 32):
                            out.append(('num', gk, 1))
                            if so >= 32:
                                out.append(('num', gk, -1))
                    elif g.kind in ('slice', 'str') and so >= 32:
                        out.append(('num', gk, 1))
                        out.append(('num', gk, -1))
                elif g.kind == 'term' and g.entry.sort == so and g.entry is lf.entry:
                    out.append(('same', gk, 0))
                elif g.kind == 'term' and g.entry.sort == so and g.tid == lf.tid and ex.T.is_time(lf.tid) and g.entry is lf.entry:
                    out.append(('same', gk, 0))
            elif lf.kind in ('slice', 'str'):
                if g.kind == 'term' and g.entry.sort == 64 and not ex.T.is_time(g.tid):
                    if lf.kind == 'str' or lf.keepalts:
                        out.append(('tail', gk, 0))
                if g.kind in ('slice', 'str') and not (lf.kind == 'slice' and lf.keepalts) and self.compatible(lf, g):
                    out.append(('seq', gk, 0))
        # exact offset 0 first
        def pri(o):
            g = self.leaves[o[1]]
            p = self.parent(lf)
            far = 0 if p is not None and p == self.parent(g) else 1
            return (far,) + pri0(o)

        def pri0(o):
            if o[0] == 'num' and o[2] == 1:
                g = self.leaves[o[1]]
                same = g.kind == 'term' and g.tid == lf.tid
                z = Sub(lf.entry, self.measure(g, g.entry, lf.entry.sort))
                return (0 if isc(z) and z.val == 0 and same else 1 if isc(z) and same else 2, 0)
            if o[0] == 'num':
                return (4, 0)
            return (0, 0)
        out.sort(key=pri)
        return out

    def parent(self, lf):
        """the struct field a leaf is, if it is one"""
        if lf.parent is None:
            t, par = self.loc_tid(lf.loc), ()
            T = self.ex.T
            for p in lf.path:
                if isinstance(t, tuple):
                    par = ()
                    break
                u = T.und(t)
                if 'f' in u:
                    par = (t, p)
                    t = u['f'][p]['t']
                else:
                    par = ()
                    t = u['es'][p] if 'es' in u else T.elem(t)
            lf.parent = par
        return lf.parent or None

    def compatible(self, lf, g):
        ex = self.ex
        te = lf.entry
        ge = g.entry
        lt = ex.bytetid_of(lf.tid, lf.kind)
        gt = ex.bytetid_of(g.tid, g.kind)
        if lt != gt:
            return False
        # contents equal at entry?
        try:
            c = self.seq_eq(self.hs0, te, lf, ge, g)
        except Unsupported:
            return False
        return ex.solver.valid(self.hs0.pc.term(), c, ex)

    def scan(self, s, env):
        """find newly changed leaves"""
        ex = self.ex
        new = []

        def note(loc, head, back):
            out = []
            try:
                tid = self.loc_tid(loc)
            except LoopGiveUp:
                raise
            if isinstance(tid, tuple):
                n = ex.small.get(loc[1]) if loc[0] == 'mem' else None
                if head is not back and n is not None:
                    # a short buffer is followed element by element
                    for i in range(n):
                        out.append(((i,), 'term', tid[1]))
                elif head is not back:
                    out.append(((), 'arr', tid))
            else:
                diff(ex, head, back, tid, (), out)
            for path, k, t in out:
                key = (loc, path)
                if key not in self.leaves:
                    ghost = loc[0] == 'mem' and loc[1] in self.gobjs
                    lf = Leaf(loc, path, t, k, getp(self.base_entry(loc), path), ghost)
                    self.leaves[key] = lf
                    new.append(lf)
        hs, henv = self.head
        for n in self.phis:
            if henv.get(n) is not env.get(n):
                note(('env', n), henv[n], env[n])
        for o in list(hs.mem):
            x, y = hs.mem[o], s.mem.get(o)
            if y is not None and x is not y:
                if o not in self.own_objs():
                    note(('mem', o), x, y)
        for o, y in s.mem.items():
            if o not in hs.mem and o[0] in ('G', 'L') and not (o[0] == 'L' and o in self.own_objs()):
                x = ex.getobj(hs, o)
                if x is not y:
                    note(('mem', o), x, y)
        new.sort(key=lambda l: (not l.ghost))
        self.order += new
        self.order.sort(key=lambda l: (not l.ghost))
        return new

    def own_objs(self):
        return {l.obj for l in self.order if l.obj is not None}

    def base_entry(self, loc):
        if loc[0] == 'env':
            return self.henv0[loc[1]]
        return self.ex.getobj(self.hs0, loc[1])

    def own_written(self, s):
        """objects created for havoced slices that are written in place"""
        hs, _ = self.head
        return [o for o in self.own_objs() if s.mem.get(o) is not hs.mem.get(o)]

    def run(self):
        ex = self.ex
        fr = self.fr
        rec = ex.recording
        nret = len(fr.returns)
        sd = list(fr.defers)
        nob = len(ex.obls)
        ex.recording = False
        ex.cutdepth += 1
        try:
            for it in range(80):
                h = self.build_head()
                if h is None:
                    raise LoopGiveUp('loop head unreachable')
                self.head = h
                r = self.run_body(h)
                del fr.returns[nret:]
                fr.defers[:] = sd
                backs = r[0] if r else None
                b = self.back_state(backs, False) if backs else None
                if b is None:
                    break
                s, env = b
                pc = s.pc.term()
                if it == 0:
                    self.first = (s, env)
                new = self.scan(s, env)
                changed = False
                if it == 0 and self.take_hints():
                    continue
                # facts
                early = {}
                if solve.PAR > 1:
                    for lf in self.order:
                        early[lf.loc, lf.path] = self.lstate(lf), self.inv_term(lf, s, env)
                    ex.solver.prefetch([(pc, self.fact_term(f, lambda l: self.cur_value(l, s, env))) for f in self.all_facts_live()] +
                                       [(pc, c) for k, c in early.values()], ex)
                for f in self.all_facts_live():
                    c = self.fact_term(f, lambda l: self.cur_value(l, s, env))
                    if not ex.solver.valid(pc, c, ex):
                        self.dead_facts.add(f)
                        changed = True
                        if TRACE:
                            print('      fact out', self.where(), f[0], f[1], flush=True)
                newfree = False
                for lf in list(self.order):
                    e = early.get((lf.loc, lf.path))
                    c = e[1] if e and e[0] == self.lstate(lf) else self.inv_term(lf, s, env)
                    if c is TRUE:
                        continue
                    if not ex.solver.valid(pc, c, ex):
                        changed = True
                        if TRACE:
                            print('      relation out', self.where(), lf, flush=True)
                        if lf.kind == 'slice' and lf.nnlen and not lf.keepalts and lf.choice[0] in ('f', 'seq'):
                            nt = AndL(self.nn_term(lf, self.cur_value(lf, s, env)))
                            if not ex.solver.valid(pc, nt, ex):
                                lf.nnlen = False
                                continue
                        if lf.choice == 'free':      # caplen failed
                            if lf.keepalts and not lf.caplen:
                                lf.keepalts = False
                                continue
                            lf.caplen = False
                            lf.tried.add('nocaplen')
                            continue
                        if lf.choice[0] == 'seq' and lf.caplen:
                            bb = self.cur_value(lf, s, env)
                            if not ex.solver.valid(pc, Eq(bb.len, bb.cap), ex):
                                lf.caplen = False
                                lf.tried.add('nocaplen')
                                continue
                        self.advance(lf, s, env)
                        if lf.choice == 'free':
                            newfree = True
                if newfree:
                    # a new free quantity may serve as the partner of an already free leaf
                    for lf in self.order:
                        if lf.choice == 'free':
                            for opt in self.options(lf, None):
                                if opt not in lf.tried and self.leaves[opt[1]] is not lf and self.survives_first(lf, opt):
                                    lf.choice = opt
                                    changed = True
                                    break
                if not changed and not new:
                    # relations refuted while other guesses were still wrong get another chance
                    again = False
                    if self.retries < 2:
                        for lf in self.order:
                            if lf.choice == 'free' and any(isinstance(o, tuple) for o in lf.tried):
                                lf.tried = {o for o in lf.tried if not isinstance(o, tuple)}
                                opts = [o for o in self.options(lf, None) if self.survives_first(lf, o)]
                                if opts:
                                    lf.choice = opts[0]
                                    again = True
                    if not again:
                        break
                    self.retries += 1
            else:
                raise LoopGiveUp('no loop invariant found')
            if b is not None and self.own_written(s):
                # in-place writes into a havoced slice: must not be shared with another leaf
                raise LoopGiveUp('in-place update of a slice replaced in the loop')
        finally:
            ex.recording = rec
            ex.cutdepth -= 1
            del fr.returns[nret:]
            fr.defers[:] = sd
            del ex.obls[nob:]
        # ---- final pass: record obligations
        if b is not None:
            self.leave_hints()
            ex.loop_stats.append(dict(fn=fr.fn, where=self.where(), ghost=self.ghost['label'] if self.ghost else None,
                                      rounds=self.round,
                                      invariant=['%s%s: %s' % (l.loc[1], list(l.path) or '', l.choice if isinstance(l.choice, str) else '%s(%s)' % (l.choice[0], l.choice[1][0][1])) for l in self.order] if rec and not ex.cutdepth else None))
        h = self.build_head()
        self.head = h
        r = self.run_body(h)
        out = []
        if r is None:
            return out
        backs, exits = r
        if backs:
            b = self.back_state(backs, True)
            if b is not None:
                s, env = b
                lab = self.ghost['label'] if self.ghost else ex.safety
                for f in self.all_facts():
                    ex.oblige(self.hs0.fork(), self.fact_term(f, lambda l: l.entry), 'invariant', self.where(), lab, 'loop fact %s on entry' % (f[0],))
                for lf in self.order:
                    if lf.kind == 'slice' and lf.nnlen and lf.choice[0] in ('f', 'seq'):
                        ex.oblige(self.hs0.fork(), AndL(self.nn_term(lf, lf.entry)), 'invariant', self.where(), lab, 'loop fact nil-iff-empty on entry')
                    if lf.kind == 'slice' and lf.caplen and lf.choice[0] in ('f', 'seq'):
                        ex.oblige(self.hs0.fork(), Eq(lf.entry.len, lf.entry.cap), 'invariant', self.where(), lab, 'loop fact full on entry')
                    if lf.choice[0] == 'seq':
                        g = self.leaves[lf.choice[1]]
                        ex.oblige(self.hs0.fork(), self.seq_eq(self.hs0, lf.entry, lf, g.entry, g), 'invariant', self.where(), lab, 'loop relation on entry')
                for f in self.all_facts():
                    c = self.fact_term(f, lambda l: self.cur_value(l, s, env))
                    ex.oblige(s.fork(), c, 'invariant', self.where(), lab, 'loop fact %s' % (f[0],))
                if self.ghost is None:
                    c = self.terminates(s, env)
                    ex.oblige(s.fork(), c, 'termination', self.where(), lab, 'the loop ends: some quantity moves strictly in one direction on every iteration')
                for lf in self.order:
                    c = self.inv_term(lf, s, env)
                    ex.oblige(s.fork(), c, 'invariant', self.where(), lab, 'loop relation %s' % (lf.choice if isinstance(lf.choice, str) else lf.choice[0]))
                for o, wh in sorted(ex.spawncaps, key=repr):
                    if ('mem', o) in {l.loc for l in self.order} and o in self.hs0.mem:
                        ex.oblige(s.fork(), FALSE, 'race', wh, None, 'a variable that the started function uses is written again by the loop')
                if self.scan(s, env):
                    raise LoopGiveUp('unstable loop frame')
        for (src, tgt, s, e) in exits:
            out.append((src, tgt, s, ex.drop_env(fr, self.h, e)))
        return out

    # ---- the same loop is cut again and again while an enclosing loop is examined: what was found out
    # the last time is where the search starts (it is checked like any other candidate)
    def leaf_sigs(self):
        objs = {}
        for lf in self.order:
            if lf.loc[0] == 'mem' and lf.loc[1][0] == 'A':
                objs.setdefault(repr(self.loc_tid(lf.loc)), set()).add(lf.loc[1][1])
        out = []
        for lf in self.order:
            if lf.loc[0] == 'mem' and lf.loc[1][0] == 'A':
                t = repr(self.loc_tid(lf.loc))
                w = ('A', t, sorted(objs[t]).index(lf.loc[1][1]))
            else:
                w = lf.loc
            out.append((lf.ghost, w, lf.path, lf.kind))
        return out

    def hint_key(self):
        return (self.fr.fn, self.h, self.ghost['label'] if self.ghost else None)

    def leave_hints(self):
        sig = dict(zip([(l.loc, l.path) for l in self.order], self.leaf_sigs()))
        out = {}
        for lf in self.order:
            c = lf.choice
            if not isinstance(c, str):
                c = (c[0], sig[c[1]], c[2])
            out[sig[(lf.loc, lf.path)]] = (c, lf.caplen, lf.nnlen, lf.keepalts, lf.capentry)
        self.ex.hints[self.hint_key()] = out, {self.fact_sig(f, sig) for f in self.dead_facts}

    def fact_sig(self, f, sig):
        """a fact, named independently of the objects of this cut"""
        x = f[2] if len(f) > 2 else None
        if isinstance(x, Term):
            x = [t.id for t in self.const_lens()].index(x.id)
        elif x is not None:
            x = sig.get(x)
        return (f[0], sig.get(f[1]), x)

    def take_hints(self):
        h = self.ex.hints.get(self.hint_key())
        if not h:
            return False
        sigs = self.leaf_sigs()
        back = dict(zip(sigs, self.order))
        h, dead = h
        if set(back) != set(h):
            return False
        for sg, lf in back.items():
            c, lf.caplen, lf.nnlen, lf.keepalts, lf.capentry = h[sg]
            if not isinstance(c, str):
                g = back[c[1]]
                c = (c[0], (g.loc, g.path), c[2])
            lf.choice = c
        sig = {(lf.loc, lf.path): sg for sg, lf in back.items()}
        for f in self.candidate_facts():
            if self.fact_sig(f, sig) in dead:
                self.dead_facts.add(f)
        return True

    def terminates(self, s, env):
        """a condition that makes the loop well-founded: a machine integer or a length that strictly grows or strictly shrinks"""
        ex = self.ex
        pairs = []
        for lf in self.order:
            b = self.cur_value(lf, s, env)
            if lf.kind == 'term' and isinstance(lf.entry.sort, int):
                pairs.append((lf.val, b))
            elif lf.kind in ('slice', 'str'):
                pairs.append((lf.val.len, b.len))
        wide = [(a, b) for a, b in pairs if a.sort == 64]
        pairs += [(Add(a, c), Add(b, d)) for i, (a, b) in enumerate(wide) for (c, d) in wide[:i]][:12]
        pc = s.pc.term()
        for a, b in pairs:
            for c in (Ult(a, b), Ult(b, a), Slt(a, b), Slt(b, a)):
                if c is TRUE or ex.solver.valid(pc, c, ex):
                    return c
        return FALSE

    def lstate(self, lf):
        return (lf.choice, lf.caplen, lf.nnlen, lf.keepalts)

    def all_facts_live(self):
        return self.all_facts()


def cut(ex, fr, h, inc):
    if ex.bounded is None and ex.solver is None:
        raise LoopGiveUp('symbolic loop without solver')
    return Cut(ex, fr, h, inc).run()
