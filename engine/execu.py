"""Forward symbolic execution of go/ssa with state merging; produces proof obligations."""
import terms
import re
from values import *
from fractions import Fraction


class PC:
    """path condition: set of conjuncts"""
    __slots__ = ('lits', '_t')

    def __init__(self, lits):
        self.lits = lits
        self._t = None

    def term(self):
        if self._t is None:
            self._t = AndL(list(self.lits.values())) if self.lits else TRUE
        return self._t

    def add(self, c):
        """returns PC or None when contradictory"""
        if c is TRUE:
            return self
        if c is FALSE:
            return None
        v = lit_value(c, self.lits)
        if v is True:
            return self
        if v is False:
            return None
        t = AndL(list(self.lits.values()) + [c])
        if t is FALSE:
            return None
        return PC.of(t)

    @staticmethod
    def of(t):
        if t is TRUE:
            return PC(Lits())
        if t.op == 'and':
            return PC(Lits({a.id: a for a in t.args}))
        return PC(Lits({t.id: t}))


PC_TRUE = PC(Lits())


class State:
    __slots__ = ('pc', 'mem', 'log')

    def __init__(self, pc, mem, log=()):
        self.pc = pc
        self.mem = mem
        self.log = log

    def fork(self):
        return State(self.pc, dict(self.mem), self.log)

    @property
    def known(self):
        return self.pc.lits


class Obl:
    __slots__ = ('label', 'kind', 'where', 'fn', 'pc', 'cond', 'status', 'model', 'seconds', 'backend', 'wit', 'text')

    def __init__(self, label, kind, where, fn, pc, cond, text=''):
        self.label, self.kind, self.where, self.fn, self.pc, self.cond = label, kind, where, fn, pc, cond
        self.status = None
        self.model = None
        self.seconds = 0.0
        self.backend = None
        self.wit = None
        self.text = text


class Frame:
    def __init__(self, fn, env, bindings):
        self.fn = fn
        self.env = env
        self.bind = bindings
        self.returns = []
        self.defers = []


class Program:
    def __init__(self, js):
        self.js = js
        self.funcs = js['funcs']
        self.T = Types(js['types'])
        self.methods = js['methods']
        self.globals = js['globals']
        self._info = {}
        self.tid_by_str = {t['str']: i for i, t in enumerate(js['types'])}

    def info(self, fname):
        r = self._info.get(fname)
        if r is None:
            r = FuncInfo(self.funcs[fname])
            self._info[fname] = r
        return r


class FuncInfo:
    """CFG facts: RPO, dominators, natural loops, per-loop escaping registers"""

    def __init__(self, f):
        self.f = f
        bl = f['blocks']
        n = len(bl)
        self.succ = [b['succs'] for b in bl]
        self.pred = [b['preds'] for b in bl]
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        self.rpoi = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.rpoi[x] > self.rpoi[y]:
                            x = idom[x]
                        while self.rpoi[y] > self.rpoi[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.pred[x] if p in self.rpoi)
                elif self.rpoi[s] <= self.rpoi[b]:
                    raise Unsupported('irreducible control flow')
        self.defblk = {}
        for i, b in enumerate(bl):
            for ins in b['i']:
                if 'n' in ins:
                    self.defblk[ins['n']] = i
        self._escape = {}

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def inner_header(self, b, current):
        """innermost-but-outside-`current` loop header whose loop contains b, as child of current"""
        best = None
        for h, body in self.loops.items():
            if h == current:
                continue
            if b in body and (current is None or (h in self.loops[current] and body < self.loops[current])):
                if best is None or self.loops[best] < body:
                    best = h
        return best

    def used_outside(self, h):
        r = self._escape.get(h)
        if r is not None:
            return r
        body = self.loops[h]
        r = set()
        for i, b in enumerate(self.f['blocks']):
            if i in body or i not in self.rpoi:
                continue
            for ins in b['i']:
                for nm in operands(ins):
                    if self.defblk.get(nm) in body:
                        r.add(nm)
        self._escape[h] = r
        return r


def operands(ins):
    def walk(x):
        if isinstance(x, str):
            yield x
        elif isinstance(x, list):
            for y in x:
                yield from walk(y)
    for k, v in ins.items():
        if k in ('op', 'n', 'p', 'c', 'o', 'heap'):
            continue
        if k == 'call':
            yield from walk(v['args'])
            yield from walk(v['v'])
        else:
            yield from walk(v)


class CutOuter(Exception):
    """an inner loop has to be cut while an enclosing loop is still being explored and a loop
    specification is waiting: the specification belongs to the enclosing loop"""


class LoopGiveUp(Unsupported):
    pass


def short_iface(n):
    return re.sub(r'(?:[\w.\-]+/)+', '', n)


class Exec:
    MAXDEPTH = 60

    def __init__(self, prog, world=None, solver=None):
        self.P = prog
        self.W = world or World(prog.T)
        self.T = prog.T
        self.solver = solver
        self.obls = []
        self.recording = True
        self.objn = 0
        self.stack = []
        self.models = {}
        self.abstract = set()
        self.pure = set()
        self.unify = set()
        self.calls = {}
        self.hints = {}
        self.replaced = {}
        self.watched = {}
        self.mapkeys = []         # keys the contract speaks about
        self.lastiter = None
        self.spawning = 0
        self.spawncaps = set()
        self.small = {}
        self.nobytes = []
        self.safety = 'C01'
        self.contract = ''
        self.ghosts = []          # pending ghosts
        self.digs = []
        self.dig_memo = {}
        self.errn = 100
        self.assumed = set()      # models used
        self.inlined = set()
        self.abstracted = set()
        self.fresh_base = 0
        self.modifiable = None    # set of obj roots writable, None = no frame check
        self.frame_label = None
        self.loop_stats = []
        self.maxunroll = 300
        self.bounded = None       # bounded mode: unroll symbolic loops this many times
        self.globals_init = {}
        self.lenient = False
        self.native_skip = False
        self.notes = []
        self.ghost_obj = {}
        self.otype = {}
        self.active = []
        self.exploring = []
        self.cutdepth = 0
        self.covers = []
        self.exits = []
        self.consulted = set()

    # ------------------------------------------------------------------ util
    def newobj(self, tag='A'):
        self.objn += 1
        return (tag, self.objn)

    def errval(self, code=None):
        if code is None:
            self.errn += 1
            code = self.errn
        return VIface(((TRUE, 'errs', bv(code, 32)),))

    def oblige(self, st, cond, kind, where, label=None, text=''):
        """record obligation pc => cond; afterwards assume cond. returns False when path dies"""
        if cond is not TRUE:
            v = lit_value(cond, st.known)
            if v is True:
                cond = TRUE
        if self.recording and not self.lenient:
            self.obls.append(Obl(label or self.safety, kind, where, self.stack[-1] if self.stack else '', st.pc.term(), cond, text))
        if cond is TRUE:
            return True
        pc = st.pc.add(cond)
        if pc is None:
            return False
        st.pc = pc
        return True

    def assume(self, st, cond):
        pc = st.pc.add(cond)
        if pc is None:
            return False
        st.pc = pc
        return True

    def assume_def(self, st, cond):
        """definitional fact about a term just introduced"""
        if cond is TRUE:
            return
        pc = st.pc.add(cond)
        if pc is not None:
            st.pc = pc

    def note_exit(self, st, what):
        self.exits.append((what, st.pc.term()))

    # ------------------------------------------------------------------ memory
    def getobj(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == 'L':
                return self.W.content0(obj)
            if obj[0] == 'G':
                return self.global_value(st, obj)
            if obj[0] == 'M':
                return self.W.lazyobj.get(obj, EMPTYMAP)
            raise Unsupported('unknown object %r' % (obj,))
        return v

    def project(self, v, path, known=None):
        for p in path:
            if isinstance(p, int):
                v = v.fields[p]
            else:
                v = self.W.select(v, p, known)
        return v

    def inject(self, v, path, new, g, known=None):
        if not path:
            return self.W.merge(g, new, v)
        p = path[0]
        if isinstance(p, int):
            fs = list(v.fields)
            fs[p] = self.inject(fs[p], path[1:], new, g, known)
            return VStruct(tuple(fs))
        old = None
        if len(path) == 1 and g is TRUE:
            return self.W.store(v, p, new)
        old = self.W.select(v, p, known)
        return self.W.store(v, p, self.inject(old, path[1:], new, g, known))

    def load_addr(self, st, addr):
        return self.W.refine(self.project(self.getobj(st, addr[0]), addr[1], st.known), st.known)

    def load(self, st, ptr, where, tid=None):
        if not isinstance(ptr, VPtr):
            raise Unsupported('load through %r' % type(ptr))
        ptr = self.W.refine(ptr, st.known)
        nn = OrL([a[0] for a in ptr.alts])
        if not self.oblige(st, nn, 'nil-deref', where):
            return None
        v = None
        for g, addr in reversed(ptr.alts):
            x = self.load_addr(st, addr)
            v = x if v is None else self.W.merge(g, x, v)
        return self.W.refine(v, st.known)

    def store_ptr(self, st, ptr, val, where):
        ptr = self.W.refine(ptr, st.known)
        nn = OrL([a[0] for a in ptr.alts])
        if not self.oblige(st, nn, 'nil-deref', where):
            return False
        single = len(ptr.alts) == 1
        for g, addr in ptr.alts:
            self.write(st, addr, val, TRUE if single else g, where)
        return True

    def write(self, st, addr, val, g, where):
        obj, path = addr
        self.check_frame(st, obj, g, where)
        if obj[0] == 'L' and obj[2]:
            raise Unsupported('write through unknown pointer at ' + where)
        cur = self.getobj(st, obj)
        st.mem[obj] = self.inject(cur, path, val, g, st.known)

    def check_frame(self, st, obj, g, where):
        if self.frame_label is None or self.modifiable is None:
            return
        if obj[0] == 'A' and obj[1] > self.fresh_base:
            return
        if obj in self.modifiable:
            return
        if self.recording and not self.lenient:
            self.obls.append(Obl(self.frame_label, 'frame', where, self.stack[-1] if self.stack else '', st.pc.term(), Not(g), 'write to %s' % (obj[:2],)))

    def global_value(self, st, obj):
        name = obj[1]
        if name in self.globals_init:
            return self.globals_init[name]
        g = self.P.globals.get(name)
        et = self.T.elem(g['t']) if g else None
        if et is not None and self.T.is_error(et) and not name.startswith(self.P.js['module']):
            import zlib
            codes = {'io.EOF': 1, 'io.ErrUnexpectedEOF': 2}
            v = self.errval(codes.get(name, 0x40000000 | (zlib.crc32(name.encode()) & 0xfffffff)))
            self.globals_init[name] = v
            return v
        if name.startswith('encoding/binary.') or et is not None and self.T.kind(et) == 'struct' and not self.T.und(et)['f']:
            v = self.W.zero(et)
            self.globals_init[name] = v
            return v
        if g and (g['pkg'].startswith(self.P.js['module']) or g['pkg'] in self.P.js.get('inlined', ())):
            self.run_init(g['pkg'], et, name)
            if name in self.globals_init:
                return self.globals_init[name]
        if et is None:
            raise Unsupported('global ' + name)
        v = self.W.fresh(et, 'global:' + name)
        self.globals_init[name] = v
        self.notes.append('global %s treated as unknown' % name)
        return v

    def run_init(self, pkg, et, name):
        """symbolically run the package initialiser to obtain globals (unknown calls havoc)"""
        fn = pkg + '.init'
        written = self.written_globals()
        self.globals_init[name] = None
        if name in written:
            self.globals_init[name] = self.W.fresh(et, 'global:' + name)
            self.notes.append('global %s is written outside init: unknown' % name)
            return
        if fn not in self.P.funcs:
            del self.globals_init[name]
            return
        sub = Exec(self.P, self.W, self.solver)
        sub.models = self.models
        sub.lenient = True
        sub.objn = self.objn + 1000000
        sub.globals_init = {}
        # every global of the package starts at zero
        st = State(PC_TRUE, {})
        for gname, g in self.P.globals.items():
            if g['pkg'] == pkg:
                try:
                    st.mem[('G', gname)] = self.W.zero(self.T.elem(g['t']))
                except Unsupported:
                    pass
        try:
            r = sub.call(fn, [], st, 'init')
        except Unsupported as e:
            raise Unsupported('package initialiser of %s: %s' % (pkg, e))
        if r is None:
            raise Unsupported('package initialiser of %s does not return' % pkg)
        _, st2 = r
        self.init_mem = {}
        for k, v in st2.mem.items():
            if k[0] == 'G':
                if k[1] not in written:
                    self.globals_init[k[1]] = v
            else:
                self.W.lazyobj[k] = v
                self.extra_mem = getattr(self, 'extra_mem', {})
                self.extra_mem[k] = v
        self.objn = max(self.objn, 0)

    def written_globals(self):
        if not hasattr(self.P, '_wg'):
            w = set()
            for f in self.P.funcs.values():
                if f['name'].endswith('.init') or '.init#' in f['name']:
                    continue
                alias = {}
                for b in f['blocks'] or ():
                    for ins in b['i']:
                        if ins['op'] == 'Store':
                            a = ins['a']
                            if isinstance(a, dict) and a.get('k') == 'global':
                                w.add(a['g'])
                            elif isinstance(a, str) and a in alias:
                                w.add(alias[a])
                        elif ins['op'] in ('FieldAddr', 'IndexAddr', 'Slice'):
                            x = ins['x']
                            if isinstance(x, dict) and x.get('k') == 'global':
                                alias[ins['n']] = x['g']
                            elif isinstance(x, str) and x in alias:
                                alias[ins['n']] = alias[x]
            self.P._wg = w
        return self.P._wg

    # ------------------------------------------------------------------ operands
    def val(self, fr, st, o):
        if isinstance(o, str):
            return self.W.refine(fr.env[o], st.known)
        if o is None:
            return None
        k = o['k']
        if k == 'const':
            return self.const(o)
        if k == 'global':
            return VPtr(((TRUE, (('G', o['g']), ())),))
        if k == 'func':
            return VFunc(((TRUE, o['f'], ()),))
        if k == 'builtin':
            return ('builtin', o['b'])
        raise Unsupported('operand ' + k)

    def const(self, o):
        t = o['t']
        if o.get('z'):
            return self.W.zero(t)
        if 'b' in o:
            return boolc(o['b'])
        if 's' in o:
            return cstr(bytes.fromhex(o['s']))
        u = self.T.und(t)
        s = BASIC.get(u.get('name'))
        if 'i' in o:
            if s == 'R':
                return realc(int(o['i']))
            if s is None:
                raise Unsupported('const of ' + self.T.name(t))
            return bv(int(o['i']), s)
        if 'r' in o:
            f = Fraction(o['r'])
            # float64 constants are rounded
            if s == 'R':
                f = Fraction(float(f))
                return mk('const', (), 'R', f)
            return bv(int(f), s)
        raise Unsupported('const')

    def width(self, tid):
        u = self.T.und(tid)
        return BASIC.get(u.get('name'))

    def signed(self, tid):
        return self.T.und(tid).get('name') in SIGNED

    # ------------------------------------------------------------------ state merge
    def merge2(self, a, b):
        """merge (state, env-dict) pairs"""
        (sa, ea), (sb, eb) = a, b
        la, lb = sa.pc.lits, sb.pc.lits
        common = {i: t for i, t in la.items() if i in lb}
        X = [t for i, t in la.items() if i not in common]
        Y = [t for i, t in lb.items() if i not in common]
        if not X:
            return a
        if not Y:
            return b
        tx, ty = AndL(X), AndL(Y)
        if len(X) == 1 and (len(Y) != 1 or tx.depth <= ty.depth):
            g = tx
        elif len(Y) == 1:
            g = Not(ty)
        else:
            g = tx if len(X) <= len(Y) else Not(ty)
        rest = Or(tx, ty)
        pc = PC.of(AndL(list(common.values()) + [rest]))
        W = self.W
        mem = {}
        ma, mb = sa.mem, sb.mem
        if ma is mb:
            mem = dict(ma)
        else:
            for k, v in ma.items():
                w = mb.get(k)
                if w is None:
                    if k[0] in 'GLM':
                        w = self.getobj(sb, k)
                    else:
                        mem[k] = v
                        continue
                mem[k] = v if v is w else self.rmerge(g, v, w, la, lb)
            for k, w in mb.items():
                if k not in ma:
                    if k[0] in 'GLM':
                        mem[k] = W.merge(g, self.getobj(sa, k), w)
                    else:
                        mem[k] = w
        env = {}
        for k, v in ea.items():
            w = eb.get(k)
            if w is None:
                continue
            env[k] = v if v is w else (self.rmerge(g, v, w, la, lb) if isinstance(v, (V, Term)) else v)
        log = self.merge_log(g, sa.log, sb.log)
        return State(pc, mem, log), env

    def rmerge(self, g, v, w, la, lb):
        """merge after simplifying each side with what its own path knows"""
        if v is w:
            return v
        W = self.W
        if isinstance(v, VStruct) and isinstance(w, VStruct):
            return VStruct(tuple(x if x is y else self.rmerge(g, x, y, la, lb) for x, y in zip(v.fields, w.fields)))
        return W.merge(g, W.refine(v, la), W.refine(w, lb))

    def merge_log(self, g, la, lb):
        if la is lb or la == lb:
            return la
        raise Unsupported('event log merge')

    def mergeN(self, lst):
        acc = lst[0]
        for x in lst[1:]:
            acc = self.merge2(acc, x)
        return acc

    # ------------------------------------------------------------------ calls
    def call(self, fname, args, st, where, bindings=()):
        """returns (value, state) or None if no normal return"""
        if len(self.stack) > self.MAXDEPTH or self.stack.count(fname) > 4:
            raise Unsupported('recursion in ' + fname)
        m = self.models.get(fname)
        if m is None:
            for pref, mm in self.models.get('#prefix', ()):
                if fname.startswith(pref):
                    m = mm
                    break
        if fname in self.watched and self.watched[fname] not in self.stack:
            r = self.call(self.watched[fname], args, st, where)
            if r is None:
                return None
            st = r[1]
        if fname in self.replaced:
            self.abstracted.add(fname)
            return self.call(self.replaced[fname], args, st, where)
        if fname in self.abstract:
            return self.abstract_call(fname, args, st, where)
        if m is not None:
            self.assumed.add(fname)
            return m(self, st, args, where, fname)
        f = self.P.funcs.get(fname)
        if self.lenient and self.stack and (fname.endswith('.init') or '.init#' in fname):
            return (VTuple(()), st)
        if f is None or not f['blocks']:
            if self.lenient:
                return self.havoc_call(fname, st)
            raise Unsupported('external function ' + fname)
        self.inlined.add(fname)
        return self.run(fname, args, st, bindings)

    def havoc_call(self, fname, st):
        f = self.P.funcs.get(fname)
        if f is None:
            raise Unsupported('external function %s in initialiser' % fname)
        es = self.T.und(self.T.und(f['sig'])['res'])['es']
        vs = [self.W.fresh(e, self.freshname('init:' + fname)) for e in es]
        return (vs[0] if len(vs) == 1 else VTuple(tuple(vs))), st

    def run(self, fname, args, st, bindings=()):
        fi = self.P.info(fname)
        f = fi.f
        env = {}
        for p, a in zip(f['params'], args):
            env[p['n']] = a
        for p, a in zip(f['free'], bindings):
            env[p['n']] = a
        fr = Frame(fname, env, bindings)
        fr.info = fi
        self.stack.append(fname)
        try:
            self.region(fr, None, [(None, st, env)])
        finally:
            self.stack.pop()
        if not fr.returns:
            return None
        rets = [(s, {'r': v}) for s, v in fr.returns]
        s, e = self.mergeN(rets)
        return e['r'], s

    # ------------------------------------------------------------------ CFG regions
    def region(self, fr, header, entries):
        """execute blocks of the function (header None) or one pass over loop `header`.
        entries: list of (pred, state, env).  Returns (backs, exits) where
        backs = [(pred, state, env)], exits = [(pred, target, state, env)]"""
        fi = fr.info
        start = 0 if header is None else header
        blocks = None if header is None else fi.loops[header]
        pending = {start: list(entries)}
        backs, exits = [], []
        for b in fi.rpo:
            if blocks is not None and b not in blocks:
                continue
            inc = pending.pop(b, None)
            if not inc:
                continue
            h = fi.inner_header(b, header)
            if h is not None and h != b:
                raise Unsupported('jump into loop')
            if h is not None:
                outs = self.loop(fr, h, inc)
            else:
                outs = self.block(fr, b, inc)
            for (src, tgt, s, e) in outs:
                if header is not None and tgt == header:
                    backs.append((src, s, e))
                elif blocks is not None and tgt not in blocks:
                    exits.append((src, tgt, s, e))
                else:
                    pending.setdefault(tgt, []).append((src, s, e))
        return backs, exits

    def enter(self, fr, b, inc):
        """merge incoming edges, evaluating phis"""
        fi = fr.info
        blk = fi.f['blocks'][b]
        phis = [i for i in blk['i'] if i['op'] == 'Phi']
        lst = []
        for pred, s, e in inc:
            if phis:
                if pred == '#done':
                    lst.append((s, e))
                    continue
                e = dict(e)
                if pred is None:
                    raise Unsupported('phi in entry')
                k = blk['preds'].index(pred)
                old = fr.env
                fr.env = e
                vals = [self.val(fr, s, ph['e'][k]) for ph in phis]
                fr.env = old
                for ph, v in zip(phis, vals):
                    e[ph['n']] = v
            lst.append((s, e))
        return self.mergeN(lst)

    def block(self, fr, b, inc):
        s, env = self.enter(fr, b, inc)
        return self.block_body(fr, b, s, dict(env))

    def block_body(self, fr, b, s, env):
        s = s.fork()
        fr.env = env
        blk = fr.info.f['blocks'][b]
        for ins in blk['i']:
            op = ins['op']
            if op == 'Phi':
                continue
            if op == 'Jump':
                return [(b, blk['succs'][0], s, env)]
            if op == 'If':
                c = self.val(fr, s, ins['x'])
                c = self.litsimp(c, s)
                t, f = blk['succs']
                if t == f:
                    return [(b, t, s, env)]
                out = []
                pt = s.pc.add(c)
                pf = s.pc.add(Not(c))
                if pt is not None:
                    out.append((b, t, State(pt, s.mem, s.log), env))
                if pf is not None:
                    out.append((b, f, State(pf, s.mem, s.log), env))
                return out
            if op == 'Return':
                vs = [self.val(fr, s, x) for x in ins['r']]
                v = vs[0] if len(vs) == 1 else VTuple(tuple(vs))
                fr.returns.append((s, v))
                return []
            if op == 'Panic':
                self.oblige(s, FALSE, 'panic', ins.get('p', ''))
                return []
            s = self.step(fr, s, env, ins)
            if s is None:
                return []
        raise Unsupported('block without terminator')

    def litsimp(self, c, s):
        v = lit_value(c, s.known)
        return TRUE if v is True else FALSE if v is False else c

    # ------------------------------------------------------------------ loops
    def drop_env(self, fr, h, e):
        body = fr.info.loops[h]
        keep = fr.info.used_outside(h)
        db = fr.info.defblk
        return {k: v for k, v in e.items() if k in keep or db.get(k) not in body}

    def loop(self, fr, h, inc):
        """handle loop with header h; returns list of (src, tgt, state, env) leaving the loop"""
        fi = fr.info
        nob = len(self.obls)
        nret = len(fr.returns)
        saved_defers = list(fr.defers)
        out = []
        cur = inc
        it = 0
        first_sizes = None
        limit = self.maxunroll
        soft = 0
        cap = None
        me = object()
        ngh = len(self.ghosts)
        while True:
            hs, henv = self.enter(fr, h, cur)
            nr0 = len(fr.returns)
            self.exploring.append(me)
            try:
                backs, exits = self.region(fr, h, [('#done', hs, henv)])
            except CutOuter as e:
                if e.args[0] is not me:
                    raise
                backs = None
            finally:
                self.exploring.pop()
            if backs is None:
                del self.obls[nob:]
                del fr.returns[nret:]
                del self.ghosts[ngh:]
                fr.defers = saved_defers
                return self.loop_cut(fr, h, inc)
            for (src, tgt, s, e) in exits:
                out.append((src, tgt, s, self.drop_env(fr, h, e)))
            if not backs:
                if it and self.bounded is None and self.exit_cond_symbolic(fr, h, exits, len(fr.returns) > nr0) \
                        and any(o.cond is FALSE for o in self.obls[nob:]):
                    # the unrolling only ended because something failed in a later iteration
                    del self.obls[nob:]
                    del fr.returns[nret:]
                    fr.defers = saved_defers
                    return self.loop_cut(fr, h, inc)
                return out
            it += 1
            sym = self.exit_cond_symbolic(fr, h, exits, len(fr.returns) > nr0)
            if sym:
                soft += 1
            if self.bounded is not None and sym:
                if soft > self.bounded:
                    return out     # bounded mode: deeper iterations dropped (never used for proofs)
            elif soft and self.solver is not None and it == 1 and cap is None:
                cap = self.count_bound(fr, h, hs, henv)
            if self.bounded is None and (soft > (cap or 0) or it >= limit):
                del self.obls[nob:]
                del fr.returns[nret:]
                fr.defers = saved_defers
                return self.loop_cut(fr, h, inc)
            cur = backs

    def count_bound(self, fr, h, hs, henv):
        """at most how often a counting loop (i < constant, i from a known range) can run, when that is few; else 0"""
        ins = fr.info.f['blocks'][h]['i']
        if ins[-1]['op'] != 'If':
            return 0
        for i in ins:
            if i['op'] == 'BinOp' and i.get('n') == ins[-1]['x'] and i['o'] in ('<', '<='):
                x, y = i['x'], i['y']
                if not isinstance(x, str) or x not in henv:
                    return 0
                y = henv.get(y) if isinstance(y, str) else self.const(y)
                x = henv[x]
                if not isinstance(x, Term) or not isinstance(y, Term) or not isinstance(x.sort, int) or not isc(y):
                    return 0
                r = krange(x, hs.known if isinstance(hs.known, Lits) else Lits(hs.known))
                if r is None or r[0] < 0:
                    return 0
                k = y.val - r[0] + (i['o'] == '<=')
                return k if 0 < k <= 24 else 0
        return 0

    def exit_cond_symbolic(self, fr, h, exits, returned):
        """is the number of iterations undetermined by constant folding?"""
        if any(x[0] == h for x in exits):
            return True
        return not self.header_is_test(fr.info, h) and bool(exits or returned)

    def header_is_test(self, fi, h):
        body = fi.loops[h]
        return any(s not in body for s in fi.succ[h])

    def loop_cut(self, fr, h, inc):
        from loops import cut
        hs = None
        if self.cutdepth:
            hs, _ = self.enter(fr, h, inc)
            if self.solver.valid(hs.pc.term(), FALSE, self, 6000):
                return []       # this loop is never reached
        if self.exploring:
            if hs is None:
                hs, _ = self.enter(fr, h, inc)
            for g in self.ghosts:
                if g not in self.active and hs.mem.get(g['obj']) is g['init'] and len(self.exploring) > g['depth']:
                    raise CutOuter(self.exploring[g['depth']])
        return cut(self, fr, h, inc)

    # ------------------------------------------------------------------ instructions
    def step(self, fr, s, env, ins):
        m = getattr(self, 'i_' + ins['op'], None)
        if m is None:
            raise Unsupported('instruction ' + ins['op'])
        return m(fr, s, env, ins)

    def i_Alloc(self, fr, s, env, ins):
        o = self.newobj()
        et = self.T.elem(ins['t'])
        s.mem[o] = self.W.zero(et)
        self.otype[o] = et
        env[ins['n']] = VPtr(((TRUE, (o, ())),))
        return s

    def i_Store(self, fr, s, env, ins):
        p = self.val(fr, s, ins['a'])
        v = self.val(fr, s, ins['x'])
        return s if self.store_ptr(s, p, v, ins.get('p', '')) else None

    def i_FieldAddr(self, fr, s, env, ins):
        p = self.val(fr, s, ins['x'])
        if not isinstance(p, VPtr):
            raise Unsupported('field address')
        nn = OrL([a[0] for a in p.alts])
        if not self.oblige(s, nn, 'nil-deref', ins.get('p', '')):
            return None
        env[ins['n']] = VPtr(tuple((g, (a[0], a[1] + (ins['i'],))) for g, a in p.alts))
        return s

    def i_Field(self, fr, s, env, ins):
        env[ins['n']] = self.val(fr, s, ins['x']).fields[ins['i']]
        return s

    def idx64(self, v, tid):
        n = v.sort
        if n == 64:
            return v
        return SExt(v, 64) if self.signed(tid) else ZExt(v, 64)

    def i_IndexAddr(self, fr, s, env, ins):
        x = self.val(fr, s, ins['x'])
        i = self.idx64(self.val(fr, s, ins['y']), ins['yt'])
        w = ins.get('p', '')
        if isinstance(x, VSlice):
            if not self.oblige(s, Ult(i, x.len), 'index', w):
                return None
            env[ins['n']] = VPtr(tuple((g, (a[0], a[1] + (Add(x.off, i),))) for g, a in x.alts))
            # nil slices have length 0: unreachable here
            return s
        if isinstance(x, VPtr):
            n = self.T.und(self.T.elem(ins['xt']))['n']
            nn = OrL([a[0] for a in x.alts])
            if not self.oblige(s, nn, 'nil-deref', w):
                return None
            if not self.oblige(s, Ult(i, I64(n)), 'index', w):
                return None
            env[ins['n']] = VPtr(tuple((g, (a[0], a[1] + (i,))) for g, a in x.alts))
            return s
        raise Unsupported('IndexAddr')

    def i_Index(self, fr, s, env, ins):
        x = self.val(fr, s, ins['x'])
        i = self.idx64(self.val(fr, s, ins['y']), ins['yt'])
        w = ins.get('p', '')
        if isinstance(x, VStr):
            if not self.oblige(s, Ult(i, x.len), 'index', w):
                return None
            env[ins['n']] = self.W.select(x.arr, Add(x.off, i), s.known)
            return s
        if isinstance(x, Arr):
            n = self.T.und(ins['xt'])['n']
            if not self.oblige(s, Ult(i, I64(n)), 'index', w):
                return None
            env[ins['n']] = self.W.select(x, i, s.known)
            return s
        raise Unsupported('Index')

    def i_Slice(self, fr, s, env, ins):
        x = self.val(fr, s, ins['x'])
        w = ins.get('p', '')

        def bound(o):
            if o is None:
                return None
            t = self.val(fr, s, o)
            if t.sort != 64:
                t = self.idx64(t, self.optype(fr, o))
            return t
        lo, hi, mx = bound(ins['lo']), bound(ins['hi']), bound(ins['max'])
        if isinstance(x, VStr):
            lo = lo if lo is not None else Z64
            hi = hi if hi is not None else x.len
            if not self.oblige(s, And(Ule(hi, x.len), Ule(lo, hi)), 'slice', w):
                return None
            env[ins['n']] = VStr(x.arr, Add(x.off, lo), Sub(hi, lo))
            return s
        if isinstance(x, VPtr):
            n = self.T.und(self.T.elem(ins['xt']))['n']
            nn = OrL([a[0] for a in x.alts])
            if not self.oblige(s, nn, 'nil-deref', w):
                return None
            x = VSlice(x.alts, Z64, I64(n), I64(n))
        if not isinstance(x, VSlice):
            raise Unsupported('Slice')
        lo = lo if lo is not None else Z64
        hi = hi if hi is not None else x.len
        cap = x.cap
        if mx is not None:
            if not self.oblige(s, And(Ule(mx, cap), Ule(hi, mx)), 'slice', w):
                return None
            cap = mx
        ok = And(Ule(hi, x.len) if hi is not x.len and self.le_len(s, hi, x) else (TRUE if hi is x.len else Ule(hi, cap)), Ule(lo, hi))
        if not self.oblige(s, ok, 'slice', w):
            return None
        env[ins['n']] = VSlice(x.alts, Add(x.off, lo), Sub(hi, lo), Sub(cap, lo))
        return s

    def le_len(self, s, hi, x):
        return False

    def optype(self, fr, o):
        if isinstance(o, dict):
            return o['t']
        f = fr.info.f
        b = fr.info.defblk.get(o)
        if b is not None:
            for i in f['blocks'][b]['i']:
                if i.get('n') == o:
                    return i['t']
        for p in f['params'] + f['free']:
            if p['n'] == o:
                return p['t']
        raise Unsupported('type of operand')

    def i_UnOp(self, fr, s, env, ins):
        o = ins['o']
        x = self.val(fr, s, ins['x'])
        if o == '*':
            v = self.load(s, x, ins.get('p', ''))
            if v is None:
                return None
            env[ins['n']] = v
            return s
        if o == '!':
            env[ins['n']] = Not(x)
        elif o == '-':
            env[ins['n']] = Neg(x)
        elif o == '^':
            env[ins['n']] = BvNot(x)
        elif o == '<-':
            v = self.W.fresh(self.T.und(ins['xt'])['e'], self.freshname('recv'))
            env[ins['n']] = VTuple((v, var(self.freshname('recvok'), 'B'))) if ins.get('ok') else v
        else:
            raise Unsupported('unop ' + o)
        return s

    _fn = [0]

    def freshname(self, p):
        Exec._fn[0] += 1
        return '%s!%d' % (p, Exec._fn[0])

    def i_BinOp(self, fr, s, env, ins):
        x = self.val(fr, s, ins['x'])
        y = self.val(fr, s, ins['y'])
        r = self.binop(s, ins['o'], x, y, ins['xt'], ins['yt'], ins.get('p', ''))
        if r is None:
            return None
        env[ins['n']] = r
        return s

    def binop(self, s, o, x, y, xt, yt, where):
        if o in ('==', '!='):
            e = self.equal(s, x, y, xt)
            return e if o == '==' else Not(e)
        if isinstance(x, VStr):
            if o == '+':
                return self.concat(x, y)
            raise Unsupported('string ' + o)
        n = x.sort
        if n == 'R':
            r = self.fop(o, x, y)
            if r.sort == 'R' and self.T.und(xt).get('name') == 'float32':
                r = app('f32', (r,), 'R')
            return r
        if n == 'B':
            if o == '&':
                return And(x, y)
            if o == '|':
                return Or(x, y)
            raise Unsupported('bool ' + o)
        sg = self.signed(xt)
        if o == '+':
            return Add(x, y)
        if o == '-':
            return Sub(x, y)
        if o == '*':
            return Mul(x, y)
        if o in '/%':
            if not self.oblige(s, Ne(y, bv(0, n)), 'divide', where):
                return None
            if o == '/':
                return Sdiv(x, y) if sg else Udiv(x, y)
            return Srem(x, y) if sg else Urem(x, y)
        if o == '&':
            return BvAnd(x, y)
        if o == '|':
            return BvOr(x, y)
        if o == '^':
            return BvXor(x, y)
        if o == '&^':
            return BvAnd(x, BvNot(y))
        if o in ('<<', '>>'):
            if self.signed(yt) and not isc(y):
                if not self.oblige(s, Not(Slt(y, bv(0, y.sort))), 'shift', where):
                    return None
            m = y.sort
            if m > n:
                y = Ite(Ult(y, bv(n, m)), Extract(n - 1, 0, y), bv(n, n)) if not isc(y) else bv(min(y.val, n), n)
            elif m < n:
                y = ZExt(y, n)
            if o == '<<':
                return Shl(x, y)
            return Ashr(x, y) if sg else Lshr(x, y)
        if o == '<':
            return Slt(x, y) if sg else Ult(x, y)
        if o == '>':
            return Slt(y, x) if sg else Ult(y, x)
        if o == '<=':
            return Not(Slt(y, x) if sg else Ult(y, x))
        if o == '>=':
            return Not(Slt(x, y) if sg else Ult(x, y))
        raise Unsupported('binop ' + o)

    def fop(self, o, x, y):
        if o == '<':
            return Rlt(x, y)
        if o == '>':
            return Rlt(y, x)
        if o == '<=':
            return Rle(x, y)
        if o == '>=':
            return Rle(y, x)
        if isc(x) and isc(y):
            a, b = x.val, y.val
            if not (o == '/' and b == 0):
                v = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[o]()
                return mk('const', (), 'R', Fraction(float(v)))
        nm = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[o]
        if o in '+*' and x.id > y.id:
            x, y = y, x
        return app(nm, (x, y), 'R')

    # ---- equality
    def equal(self, s, x, y, tid=None):
        if x is y and not isinstance(x, (Arr,)):
            if isinstance(x, Term) and x.sort == 'R':
                return TRUE
            return TRUE
        if isinstance(x, Term):
            return Eq(x, y)
        if isinstance(x, VStr):
            return self.str_eq(s, x, y)
        if isinstance(x, VIface) and not isinstance(y, VIface):
            raise Unsupported('mixed interface comparison')
        if isinstance(x, VIface):
            ors = [And(Not(OrL([a[0] for a in x.alts])), Not(OrL([a[0] for a in y.alts])))]
            dy = {a[1]: a for a in y.alts}
            for a in x.alts:
                b = dy.get(a[1])
                if b is None:
                    continue
                ors.append(And(a[0], b[0], self.equal(s, a[2], b[2])))
            if len(x.alts) and len(y.alts):
                kx, ky = {a[1] for a in x.alts}, {a[1] for a in y.alts}
                for p, q in ((x, y), (y, x)):      # an arbitrary error may be any value with method Error
                    for a in p.alts:
                        if a[1] == 'errs' and not isc(a[2]):
                            for b in q.alts:
                                if isinstance(b[1], int):
                                    ors.append(And(a[0], b[0], app('err!is%d' % b[1], (a[2],), 'B')))
                if ('opaque' in kx and ky - {'opaque'}) or ('opaque' in ky and kx - {'opaque'}):
                    raise Unsupported('comparison with an interface of unknown dynamic type')
            return OrL(ors)
        if isinstance(x, VPtr):
            nx, ny = OrL([a[0] for a in x.alts]), OrL([a[0] for a in y.alts])
            ors = [And(Not(nx), Not(ny))]
            for ga, a in x.alts:
                for gb, b in y.alts:
                    ors.append(And(ga, gb, self.addr_eq(a, b)))
            return OrL(ors)
        if isinstance(x, VSlice):
            if not y.alts:
                return Not(OrL([a[0] for a in x.alts]))
            if not x.alts:
                return Not(OrL([a[0] for a in y.alts]))
            raise Unsupported('slice comparison')
        if isinstance(x, VMap) and x.alts and y.alts:
            # the same map object
            ors = [And(Not(OrL([a[0] for a in x.alts])), Not(OrL([a[0] for a in y.alts])))]
            for ga, (na, ia, ta) in x.alts:
                for gb, (nb, ib, tb) in y.alts:
                    if na == nb and len(ia) == len(ib):
                        ors.append(AndL([ga, gb] + [Eq(p, q) for p, q in zip(ia, ib)]))
            return OrL(ors)
        if isinstance(x, (VMap, VFunc)):
            if not y.alts:
                return Not(OrL([a[0] for a in x.alts]))
            if not x.alts:
                return Not(OrL([a[0] for a in y.alts]))
            raise Unsupported('map/func comparison')
        if isinstance(x, VStruct):
            return AndL([self.equal(s, a, b) for a, b in zip(x.fields, y.fields)])
        if isinstance(x, Arr):
            n = self.T.und(tid)['n'] if tid is not None else None
            if n is None or n > 64:
                raise Unsupported('array comparison')
            return AndL([self.equal(s, self.W.select(x, I64(i)), self.W.select(y, I64(i))) for i in range(n)])
        if isinstance(x, VOpaque):
            return Eq(x.t, y.t)
        raise Unsupported('equality of %s' % type(x).__name__)

    def addr_eq(self, a, b):
        if a[0] != b[0]:
            if a[0][0] == 'L' and b[0][0] == 'L' and a[0][1] == b[0][1]:
                return AndL([Eq(p, q) for p, q in zip(a[0][2], b[0][2])] +
                            [TRUE if a[1] == b[1] else FALSE])
            return FALSE
        if len(a[1]) != len(b[1]):
            return FALSE
        cs = []
        for p, q in zip(a[1], b[1]):
            if isinstance(p, int) or isinstance(q, int):
                if p != q:
                    return FALSE
            else:
                cs.append(Eq(p, q))
        return AndL(cs)

    def str_eq(self, s, x, y):
        W = self.W
        if x.arr is y.arr and x.off is y.off and x.len is y.len:
            return TRUE
        for a, b in ((x, y), (y, x)):
            if isc(a.len) and a.len.val <= 64:
                le = Eq(a.len, b.len)
                if le is FALSE:
                    return FALSE
                cs = [le]
                for i in range(a.len.val):
                    cs.append(Eq(W.select(a.arr, Add(a.off, I64(i)), s.known), W.select(b.arr, Add(b.off, I64(i)), s.known)))
                return AndL(cs)
        return And(Eq(x.len, y.len), Eq(self.seqdig(s, x.arr, x.off, x.len, None), self.seqdig(s, y.arr, y.off, y.len, None)))

    def concat(self, x, y):
        if isc(x.len) and x.len.val == 0:
            return y
        if isc(y.len) and y.len.val == 0:
            return x
        xb, yb = self.const_bytes(x), self.const_bytes(y)
        if xb is not None and yb is not None:
            return cstr(xb + yb)
        W = self.W
        a = W.copy(AZero(bv(0, 8)), Z64, x.arr, x.off, x.len)
        a = W.copy(a, x.len, y.arr, y.off, y.len)
        return VStr(a, Z64, Add(x.len, y.len))

    def const_bytes(self, x):
        if isinstance(x.arr, ABytes) and isc(x.off) and isc(x.len):
            return x.arr.data[x.off.val:x.off.val + x.len.val]
        if isc(x.len) and x.len.val <= 4096:
            out = []
            for i in range(x.len.val):
                t = self.W.select(x.arr, Add(x.off, I64(i)))
                if not isc(t):
                    return None
                out.append(t.val)
            return bytes(out)
        return None

    # ---- sequence digests (extensional)
    def seqdig(self, s, arr, off, ln, etid):
        """term standing for the sequence arr[off:off+ln]; equal for equal sequences (pairwise axiom)"""
        known = s.known if s is not None else None
        # resolve copies that cover the range
        while True:
            if isinstance(arr, ACopy):
                d = Sub(off, arr.dst)
                if isc(d) and d.val == 0 and (arr.n is ln):
                    arr, off = arr.src, arr.srcoff
                    continue
                if isc(d) and isc(ln) and isc(arr.n) and d.val + ln.val <= arr.n.val and d.val < (1 << 62):
                    arr, off = arr.src, Add(arr.srcoff, d)
                    continue
            elif isinstance(arr, AIte) and known:
                v = lit_value(arr.g, known)
                if v is True:
                    arr = arr.a
                    continue
                if v is False:
                    arr = arr.b
                    continue
            break
        k = (arr.id, off.id, ln.id)
        d = self.dig_memo.get(k)
        if d is None:
            if isinstance(arr, ABase):
                d = app('dig$' + arr.name, arr.idxs + (off, ln), ('U', 'Seq'))
            else:
                d = app('dig#%d' % arr.id, (off, ln), ('U', 'Seq'))
            self.dig_memo[k] = d
            self.digs.append((d, arr, off, ln, etid, s))
        return d

    def digest(self, s, v, tid):
        """list of terms identifying the deep content of v"""
        T = self.T
        if isinstance(v, Term):
            return [v]
        if isinstance(v, VStr):
            return [v.len, self.seqdig(s, v.arr, v.off, v.len, None)]
        if isinstance(v, VSlice):
            et = T.elem(tid)
            if isc(v.len):
                n = v.len.val
                if n == 0:
                    return [Z64]
            a = None
            for g, addr in reversed(v.alts):
                x = self.load_addr(s, addr)
                a = x if a is None else self.W.merge(g, x, a)
            if a is None:
                return [Z64]
            if isc(v.len) and v.len.val <= 4 and T.kind(et) != 'basic':
                out = [v.len]
                for i in range(v.len.val):
                    out += self.digest(s, self.W.select(a, Add(v.off, I64(i)), s.known), et)
                return out
            return [v.len, self.seqdig(s, a, v.off, v.len, et)]
        if isinstance(v, VPtr):
            out = [OrL([a[0] for a in v.alts])]
            x = None
            for g, addr in reversed(v.alts):
                y = self.load_addr(s, addr)
                x = y if x is None else self.W.merge(g, y, x)
            if x is not None:
                out += self.digest(s, x, T.elem(tid))
            return out
        if isinstance(v, VStruct):
            out = []
            for f, x in zip(T.und(tid)['f'], v.fields):
                out += self.digest(s, x, f['t'])
            return out
        if isinstance(v, VIface):
            out = []
            for g, k, p in v.alts:
                out.append(g)
                if isinstance(k, int):
                    out.append(bv(k, 32))
                    out += self.digest(s, p, k)
                else:
                    out.append(p)
            return out
        if isinstance(v, VMap):
            out = []
            for g, (name, idxs, tt) in v.alts:
                if name.startswith('new!') or self.getobj(s, ('M', name, idxs)).entries:
                    raise Unsupported('digest of a map built here')
                out += [g, app('mapid:' + name, idxs, ('U', 'Obj'))]
            return out
        raise Unsupported('digest of %s' % type(v).__name__)

    # ---- deep equality (positive use only)
    def deq(self, s1, a, s2, b, tid, depth=0):
        W, T = self.W, self.T
        if a is b and (s1 is s2 or isinstance(a, (Term, VStr))):
            return TRUE
        if depth > 12:
            raise Unsupported('deep equality too deep')
        if isinstance(a, Term):
            return Eq(a, b)
        if isinstance(a, VStr):
            if isc(a.len) or isc(b.len):
                return self.str_eq(s1, a, b)
            k = var(self.freshname('k'), 64)
            self.W.bounded(k)
            if a.arr is b.arr and a.off is b.off:
                return Eq(a.len, b.len)
            return And(Eq(a.len, b.len),
                       Implies(Ult(k, a.len), Eq(W.select(a.arr, Add(a.off, k), s1.known), W.select(b.arr, Add(b.off, k), s2.known))))
        if isinstance(a, VSlice):
            et = T.elem(tid)
            le = Eq(a.len, b.len)
            if le is FALSE:
                return FALSE
            aa = self.slice_arr(s1, a)
            bb = self.slice_arr(s2, b)
            if aa is None or bb is None:
                return le if (aa is None and bb is None) else And(le, Eq(a.len, Z64))
            if aa is bb and a.off is b.off and s1 is s2:
                return le
            if isc(a.len) or isc(b.len):
                n = a.len.val if isc(a.len) else b.len.val
                if n <= 8:
                    return And(le, *[self.deq(s1, W.select(aa, Add(a.off, I64(i)), s1.known), s2, W.select(bb, Add(b.off, I64(i)), s2.known), et, depth + 1) for i in range(n)])
            pe = self.arr_peel(s1, aa, a.off, s2, bb, b.off, a.len, et, depth)
            if pe is not None:
                return And(le, pe)
            k = var(self.freshname('k'), 64)
            self.W.bounded(k)
            return And(le, Implies(Ult(k, a.len),
                                   self.deq(s1, W.select(aa, Add(a.off, k), s1.known), s2, W.select(bb, Add(b.off, k), s2.known), et, depth + 1)))
        if isinstance(a, VPtr):
            na, nb = OrL([x[0] for x in a.alts]), OrL([x[0] for x in b.alts])
            cs = [Eq(na, nb)]
            for ga, x in a.alts:
                for gb, y in b.alts:
                    g = And(ga, gb)
                    if g is FALSE:
                        continue
                    if x == y and s1 is s2:
                        continue
                    vx, vy = self.load_addr(s1, x), self.load_addr(s2, y)
                    cs.append(Implies(g, self.deq(s1, vx, s2, vy, T.elem(tid), depth + 1)))
            return AndL(cs)
        if isinstance(a, VIface):
            na, nb = OrL([x[0] for x in a.alts]), OrL([x[0] for x in b.alts])
            cs = [Eq(na, nb)]
            if tid is not None and T.is_error(tid):
                return Eq(na, nb)
            for ga, ka, pa in a.alts:
                for gb, kb, pb in b.alts:
                    g = And(ga, gb)
                    if g is FALSE:
                        continue
                    if ka != kb:
                        cs.append(Not(g))
                    elif ka == 'opaque' or ka == 'errs':
                        cs.append(Implies(g, Eq(pa, pb)))
                    else:
                        cs.append(Implies(g, self.deq(s1, pa, s2, pb, ka, depth + 1)))
            return AndL(cs)
        if isinstance(a, VStruct):
            return AndL([self.deq(s1, x, s2, y, f['t'], depth + 1) for x, y, f in zip(a.fields, b.fields, T.und(tid)['f'])])
        if isinstance(a, VTuple):
            return AndL([self.deq(s1, x, s2, y, t, depth + 1) for x, y, t in zip(a.items, b.items, T.und(tid)['es'])])
        if isinstance(a, Arr):
            n = T.und(tid)['n']
            k = var(self.freshname('k'), 64)
            self.W.bounded(k)
            return Implies(Ult(k, I64(n)), self.deq(s1, W.select(a, k), s2, W.select(b, k), T.elem(tid), depth + 1))
        if isinstance(a, VMap):
            return self.equal(s1, a, b)
        if isinstance(a, VOpaque):
            return Eq(a.t, b.t)
        raise Unsupported('deep equality of %s' % type(a).__name__)

    def arr_peel(self, s1, a, ao, s2, b, bo, ln, et, depth):
        """structural sufficient condition for element-wise equality, or None"""
        cs = []
        scalar = self.T.kind(et) in ('basic', 'time') if et is not None else True
        while True:
            if a is b and ao is bo and (s1 is s2 or scalar):
                return AndL(cs)
            if isinstance(a, AStore) and isinstance(b, AStore) and Sub(a.idx, ao) is Sub(b.idx, bo):
                cs.append(self.deq(s1, a.val, s2, b.val, et, depth + 1))
                a, b = a.prev, b.prev
                continue
            if isinstance(a, ACopy) and isinstance(b, ACopy) and Sub(a.dst, ao) is Sub(b.dst, bo) and a.n is b.n:
                if not (a.src is b.src and a.srcoff is b.srcoff and (s1 is s2 or scalar)):
                    k = var(self.freshname('k'), 64)
                    self.W.bounded(k)
                    cs.append(Implies(Ult(k, a.n), self.deq(s1, self.W.select(a.src, Add(a.srcoff, k), s1.known), s2,
                                                            self.W.select(b.src, Add(b.srcoff, k), s2.known), et, depth + 1)))
                a, b = a.prev, b.prev
                continue
            return None

    def deq_strict(self, s, b, e, tid):
        """equality strong enough to substitute e for b"""
        if b is e:
            return TRUE
        if isinstance(b, Term):
            return Eq(b, e)
        if isinstance(b, VStr):
            return self.deq(s, b, s, e, tid)
        try:
            if isinstance(b, VIface):
                return self.equal(s, b, e)
            if isinstance(b, VPtr):
                return self.equal(s, b, e)
        except Unsupported:
            return FALSE
        if isinstance(b, VSlice) and [x[1] for x in b.alts] == [x[1] for x in e.alts]:
            return AndL([Eq(x[0], y[0]) for x, y in zip(b.alts, e.alts)] + [Eq(b.off, e.off), Eq(b.len, e.len), Eq(b.cap, e.cap)])
        return FALSE

    def bytetid_of(self, tid, kind):
        if kind == 'str':
            return self.W.bytetid()
        if isinstance(tid, tuple):
            return tid[1]
        et = self.T.elem(tid)
        if self.T.kind(et) == 'basic' and BASIC.get(self.T.und(et)['name']) == 8:
            return self.W.bytetid()
        return et

    def slice_arr(self, s, v):
        a = None
        for g, addr in reversed(v.alts):
            x = self.load_addr(s, addr)
            a = x if a is None else self.W.merge(g, x, a)
        return a

    # ---- conversions
    def i_Convert(self, fr, s, env, ins):
        x = self.val(fr, s, ins['x'])
        env[ins['n']] = self.convert(s, x, ins['xt'], ins['t'])
        return s

    def convert(self, s, x, xt, t):
        T = self.T
        kx, kt = T.und(xt), T.und(t)
        if kt['k'] == 'basic' and kx['k'] == 'basic':
            st_ = BASIC.get(kt['name'])
            sx = BASIC.get(kx['name'])
            if kt['name'] == 'string':
                if kx['name'] == 'string':
                    return x
                # integer to string
                if isc(x):
                    v = x.val
                    try:
                        return cstr(chr(v).encode())
                    except Exception:
                        return cstr('\ufffd'.encode())
                raise Unsupported('string(int)')
            if sx == 'R' and st_ == 'R':
                if kt['name'] == 'float32' and kx['name'] != 'float32' and not isc(x):
                    return app('f32', (x,), 'R')
                return x
            if sx == 'R':
                n = st_
                if isc(x):
                    v = int(x.val)
                    return bv(v, n)
                if x.op == 'app' and x.val in ('i2fu', 'i2fs'):
                    y = x.args[0]
                    lo, hi = urange(y) if x.val == 'i2fu' else srange(y)
                    if lo >= 0 and hi < (1 << (n - 1 if self.signed(t) else n)) and hi <= 1 << 53:
                        return Extract(n - 1, 0, y) if n <= y.sort else ZExt(y, n)
                return app('f2i%s' % ('s' if self.signed(t) else 'u'), (x,), n)
            if st_ == 'R':
                if isc(x):
                    return realc(sgn(x.val, sx) if self.signed(xt) else x.val)
                # integers of magnitude <= 2^53 convert exactly
                r = app('i2f%s' % ('s' if self.signed(xt) else 'u'), (x,), 'R')
                lo, hi = srange(x) if self.signed(xt) else urange(x)
                if lo < -(1 << 53) or hi > 1 << 53:
                    r = app('fadd', (r, realc(0)), 'R')
                if kt['name'] == 'float32':
                    r = app('f32', (r,), 'R')
                return r
            if st_ < sx:
                return Extract(st_ - 1, 0, x)
            if st_ == sx:
                return x
            return SExt(x, st_) if self.signed(xt) else ZExt(x, st_)
        if kt['k'] == 'basic' and kt['name'] == 'string' and kx['k'] == 'slice':
            a = self.slice_arr(s, x)
            if a is None:
                return EMPTYSTR
            return self.mkstr(a, x.off, x.len)
        if kt['k'] == 'slice' and kx['k'] == 'basic':
            o = self.newobj()
            s.mem[o] = x.arr
            self.otype[o] = ('arr', T.elem(t))
            return VSlice(((TRUE, (o, ())),), x.off, x.len, Add(x.off, x.len) if False else x.len)
        if kx['k'] == kt['k']:
            return x
        raise Unsupported('convert %s -> %s' % (T.name(xt), T.name(t)))

    def mkstr(self, a, off, ln):
        if isc(ln) and ln.val == 0:
            return EMPTYSTR
        # peel covering copies
        while isinstance(a, ACopy):
            d = Sub(off, a.dst)
            if isc(d) and d.val == 0 and a.n is ln:
                a, off = a.src, a.srcoff
            else:
                break
        return VStr(a, off, ln)

    def i_ChangeType(self, fr, s, env, ins):
        env[ins['n']] = self.val(fr, s, ins['x'])
        return s

    def i_ChangeInterface(self, fr, s, env, ins):
        env[ins['n']] = self.val(fr, s, ins['x'])
        return s

    def i_MakeInterface(self, fr, s, env, ins):
        x = self.val(fr, s, ins['x'])
        env[ins['n']] = VIface(((TRUE, ins['xt'], x),))
        return s

    def i_Extract(self, fr, s, env, ins):
        env[ins['n']] = self.val(fr, s, ins['x']).items[ins['i']]
        return s

    def i_MakeSlice(self, fr, s, env, ins):
        n = self.idx64(self.val(fr, s, ins['l']), ins['lt'])
        c = self.idx64(self.val(fr, s, ins['cap']), ins['ct'])
        w = ins.get('p', '')
        lim = I64(1 << 47)
        if not self.oblige(s, And(Ule(n, c), Ule(c, lim)), 'makeslice', w):
            return None
        o = self.newobj()
        s.mem[o] = AZero(self.W.zero(self.T.elem(ins['t'])))
        self.otype[o] = ('arr', self.T.elem(ins['t']))
        if isc(n) and n is c and n.val <= 8 and isinstance(self.W.zero(self.T.elem(ins['t'])), Term):
            self.small[o] = n.val
        env[ins['n']] = VSlice(((TRUE, (o, ())),), Z64, n, c)
        return s

    def i_MakeMap(self, fr, s, env, ins):
        o = self.newobj()
        env[ins['n']] = VMap(((TRUE, ('new!%d' % o[1], (), ins['t'])),))
        return s

    def i_MakeChan(self, fr, s, env, ins):
        env[ins['n']] = VOpaque(var(self.freshname('chan'), 32))
        return s

    def i_MakeClosure(self, fr, s, env, ins):
        f = ins['x']['f']
        env[ins['n']] = VFunc(((TRUE, f, tuple(self.val(fr, s, b) for b in ins['b'])),))
        return s

    def implements(self, tid, itid):
        need = set(self.T.und(itid)['m'])
        have = set(self.P.methods.get(str(tid), {}))
        return need <= have

    def i_TypeAssert(self, fr, s, env, ins):
        x = self.val(fr, s, ins['x'])
        at = ins['at']
        isif = self.T.kind(at) == 'iface'
        ok = []
        v = None
        for g, k, p in x.alts:
            if k == 'errs' and not (isif and set(self.T.und(at)['m']) <= {'Error'}):
                if isc(p) and not isif:
                    continue
                gg = And(g, app('err!type%d' % at, (p,), 'B'))
                y = VIface(((gg, k, p),)) if isif else self.opaque_payload(at, p)
                ok.append(gg)
                if isif:
                    v = y if v is None else VIface(v.alts + y.alts)
                else:
                    v = y if v is None else self.W.merge(gg, y, v)
            elif isif:
                if k in ('errs', 'opaque') or self.implements(k, at):
                    ok.append(g)
                    y = VIface(((g, k, p),))
                    v = y if v is None else VIface(v.alts + y.alts)
            elif k == at:
                ok.append(g)
                v = p if v is None else self.W.merge(g, p, v)
            elif k == 'opaque':
                t = Eq(app('dyntype', (p,), 32), bv(at, 32))
                gg = And(g, t)
                y = self.opaque_payload(at, p)
                ok.append(gg)
                v = y if v is None else self.W.merge(gg, y, v)
        okc = OrL(ok)
        if v is None:
            v = self.W.zero(at)
        if ins.get('ok'):
            z = self.W.zero(at)
            env[ins['n']] = VTuple((self.W.merge(okc, v, z), okc))
            return s
        if not self.oblige(s, okc, 'type-assert', ins.get('p', '')):
            return None
        env[ins['n']] = self.W.refine(v, s.known)
        return s

    def opaque_payload(self, tid, p):
        nm = 'dyn<%s>' % self.T.name(tid)
        if self.T.kind(tid) == 'ptr':
            # opaque interface values hold non-nil pointers
            return VPtr(((TRUE, (self.W.lazy(self.T.elem(tid), nm + '*', (p,)), ())),))
        return self.W.fresh(tid, nm, (p,))

    def i_Lookup(self, fr, s, env, ins):
        x = self.val(fr, s, ins['x'])
        y = self.val(fr, s, ins['y'])
        if isinstance(x, VStr):
            i = self.idx64(y, ins['yt'])
            if not self.oblige(s, Ult(i, x.len), 'index', ins.get('p', '')):
                return None
            env[ins['n']] = self.W.select(x.arr, Add(x.off, i), s.known)
            return s
        v, okc = self.map_get(s, x, y, ins['xt'])
        env[ins['n']] = VTuple((v, okc)) if ins.get('ok') else v
        return s

    # ---- maps: a base (unknown contents, or empty when made here) and the entries written since
    def map_key(self, s, y, kt):
        return tuple(self.digest(s, y, kt))

    def map_base(self, name, idxs, tid, s, y):
        u = self.T.und(tid)
        et = u['e']
        if name.startswith('new!'):
            return self.W.zero(et), FALSE

        def at(nm, ix):
            return self.W.fresh(et, nm, ix), app(nm + '!has', ix, 'B')
        kb = self.const_bytes(y) if isinstance(y, VStr) else None
        if kb is not None:
            return at(name + '[%s]' % kb.decode('latin1'), idxs)
        v, has = at(name + '[*]', idxs + self.map_key(s, y, u['key']))
        for kb in self.mapkeys:
            c = self.equal(s, y, cstr(kb)) if isinstance(y, VStr) else FALSE
            if c is FALSE:
                continue
            w, h = at(name + '[%s]' % kb.decode('latin1'), idxs)
            v, has = self.W.merge(c, w, v), Or(And(c, h), And(Not(c), has))
        return v, has

    def map_get(self, s, x, y, mt):
        x = self.W.refine(x, s.known)
        u = self.T.und(mt)
        z = self.W.zero(u['e'])
        v, okc = z, FALSE
        for g, (name, idxs, tid) in x.alts:
            w, has = self.map_base(name, idxs, tid, s, y)
            w = self.W.merge(has, w, z)
            for ge, k, val in self.getobj(s, ('M', name, idxs)).entries:
                c = And(ge, self.equal(s, y, k, u['key']))
                w = self.W.merge(c, z if val is None else val, w)
                has = Or(And(c, FALSE if val is None else TRUE), And(Not(c), has))
            v = self.W.merge(g, w, v)
            okc = Or(okc, And(g, has))
        return v, okc

    def map_put(self, s, x, k, val, where):
        x = self.W.refine(x, s.known)
        nn = OrL([a[0] for a in x.alts])
        if val is not None and not self.oblige(s, nn, 'nil-map', where):
            return None
        for g, (name, idxs, tid) in x.alts:
            o = ('M', name, idxs)
            if not name.startswith('new!') or int(name[4:]) <= self.fresh_base:
                self.check_frame(s, o, g, where)
            s.mem[o] = VMapVal(self.getobj(s, o).entries + ((g if len(x.alts) > 1 else TRUE, k, val),))
        return s

    def i_MapUpdate(self, fr, s, env, ins):
        return self.map_put(s, self.val(fr, s, ins['m']), self.val(fr, s, ins['key']), self.val(fr, s, ins['x']), ins.get('p', ''))

    def i_Range(self, fr, s, env, ins):
        x = self.val(fr, s, ins['x'])
        if not isinstance(x, VMap):
            raise Unsupported('range over string')
        for g, (name, idxs, tid) in x.alts:
            if name.startswith('new!') or self.getobj(s, ('M', name, idxs)).entries:
                raise Unsupported('range over a map built here')
        o = self.newobj()
        self.otype[o] = self.P.tid_by_str['int']
        s.mem[o] = Z64
        env[ins['n']] = self.lastiter = VIter(x, o, self.freshname('order'), ins['xt'])
        return s

    def iter_key(self, it, i):
        key = None
        for g, (name, idxs, tid) in it.map.alts:
            k = self.W.fresh(self.T.und(it.tid)['key'], '%s!key!%s' % (name, it.name), idxs + (i,))
            key = k if key is None else self.W.merge(g, k, key)
        return key

    def i_Next(self, fr, s, env, ins):
        # the entries come in some order, each once
        it = self.val(fr, s, ins['x'])
        if not isinstance(it, VIter):
            raise Unsupported('range over string')
        i = s.mem[it.obj]
        n = self.builtin(fr, s, 'len', [it.map], None, ins)
        ok = Ult(i, n)
        u = self.T.und(it.tid)
        key = self.iter_key(it, i)
        if key is None:
            key, val = self.W.zero(u['key']), self.W.zero(u['e'])
        else:
            val, has = self.map_get(s, it.map, key, it.tid)
            if not self.assume(s, Implies(ok, has)):
                return None
        self.write(s, (it.obj, ()), Ite(ok, Add(i, I64(1)), i), TRUE, ins.get('p', ''))
        env[ins['n']] = VTuple((ok, key, val))
        return s

    def i_Go(self, fr, s, env, ins):
        # what is started runs, as far as its contract shows, at once; what it shares with this
        # function through variables must not be written again
        c = ins['call']
        args = [self.val(fr, s, a) for a in c['args']]
        v = c['v']
        fv = None if isinstance(v, dict) and v.get('k') in ('func', 'builtin') else self.val(fr, s, v)
        for x in args + ([fv] if fv is not None else []):
            for g, fn, b in (x.alts if isinstance(x, VFunc) else ()):
                for y in b:
                    if isinstance(y, VPtr):
                        self.spawncaps.update((a[1][0], ins.get('p', '')) for a in y.alts)
        self.spawning += 1
        try:
            r = self.do_call(fr, s, c, args, fv, ins)
        finally:
            self.spawning -= 1
        if r is None:
            return None
        fr.env = env
        return r[1]

    def i_Send(self, fr, s, env, ins):
        raise Unsupported('channel send')

    def i_Select(self, fr, s, env, ins):
        raise Unsupported('select statement')

    def i_Defer(self, fr, s, env, ins):
        c = ins['call']
        fr.defers.append((dict(c), [self.val(fr, s, a) for a in c['args']], None if isinstance(c['v'], dict) and c['v'].get('k') == 'builtin' else (self.val(fr, s, c['v'])), ins))
        return s

    def i_RunDefers(self, fr, s, env, ins):
        for c, args, v, dins in reversed(fr.defers):
            r = self.do_call(fr, s, c, args, v, dins)
            if r is None:
                return None
            s = r[1]
        return s

    # ---- calls
    def i_Call(self, fr, s, env, ins):
        c = ins['call']
        args = [self.val(fr, s, a) for a in c['args']]
        v = c['v']
        if isinstance(v, dict) and v['k'] == 'builtin':
            r = self.builtin(fr, s, v['b'], args, c, ins)
            if r is None:
                return None
            env[ins['n']] = r
            return s
        fv = None
        if not (isinstance(v, dict) and v['k'] == 'func'):
            fv = self.val(fr, s, v)
        r = self.do_call(fr, s, c, args, fv, ins)
        if r is None:
            return None
        fr.env = env
        val, s2 = r
        env[ins['n']] = self.W.refine(val, s2.known) if isinstance(val, (V, Term)) else val
        return s2

    def do_call(self, fr, s, c, args, fv, ins):
        where = ins.get('p', '')
        v = c['v']
        if c.get('invoke'):
            return self.invoke(s, fv, c, args, where, ins)
        if isinstance(v, dict) and v['k'] == 'func':
            r = self.call(v['f'], args, s, where)
            return r
        # dynamic call
        if not isinstance(fv, VFunc):
            raise Unsupported('dynamic call')
        nn = OrL([a[0] for a in fv.alts])
        if not self.oblige(s, nn, 'nil-deref', where):
            return None
        outs = []
        for g, fname, b in fv.alts:
            pc = s.pc.add(g)
            if pc is None:
                continue
            s2 = State(pc, dict(s.mem), s.log)
            if fname.startswith('?'):
                raise Unsupported('call of unknown function value')
            r = self.call(fname, args, s2, where, b)
            if r is not None:
                outs.append((r[1], {'r': r[0]}))
        if not outs:
            return None
        s3, e = self.mergeN(outs)
        return e['r'], s3

    def invoke(self, s, iv, c, args, where, ins):
        iv = self.W.refine(iv, s.known)
        nn = OrL([a[0] for a in iv.alts])
        if not self.oblige(s, nn, 'nil-deref', where):
            return None
        outs = []
        name = c['invoke']
        for g, k, p in iv.alts:
            pc = s.pc.add(g)
            if pc is None:
                continue
            s2 = State(pc, dict(s.mem), s.log)
            if k == 'errs':
                if name == 'Error':
                    r = (self.W.fresh(self.string_tid(), self.freshname('errtext')), s2)
                else:
                    r = self.invoke_opaque(s2, c, name, p, args, where, ins)
            elif k == 'opaque' and short_iface(self.T.name(c['it'])) + '.' + name in self.replaced:
                key = short_iface(self.T.name(c['it'])) + '.' + name
                self.abstracted.add(key)
                r = self.call(self.replaced[key], [VIface(((TRUE, 'opaque', p),))] + args, s2, where)
            elif k == 'opaque':
                r = self.invoke_opaque(s2, c, name, p, args, where, ins)
            else:
                fn = self.P.methods.get(str(k), {}).get(name)
                if fn is None:
                    raise Unsupported('no method %s on %s' % (name, self.T.name(k)))
                r = self.call(fn, [p] + args, s2, where)
            if r is not None:
                outs.append((r[1], {'r': r[0]}))
        if not outs:
            return None
        s3, e = self.mergeN(outs)
        return e['r'], s3

    def string_tid(self):
        return self.P.tid_by_str['string']

    def invoke_opaque(self, s, c, name, p, args, where, ins):
        iname = self.T.name(c['it'])
        key = iname + '.' + name
        m = self.models.get('invoke:' + key)
        if m is not None:
            self.assumed.add('interface ' + key)
            return m(self, s, [p] + args, where, key)
        if self.T.t[c['it']].get('pkg', '').startswith(self.P.js['module']):
            # unknown implementation of an interface of the repository: a function of the object and the arguments
            self.assumed.add('interface contract %s: result depends only on the receiver object and the arguments' % key)
            mt = c['sig']
            idxs = [p]
            u = self.T.und(mt)
            ptids = self.T.und(u['par'])['es']
            for a, t in zip(args, ptids):
                idxs += self.digest(s, a, t)
            es = self.T.und(u['res'])['es']
            vs = [self.W.fresh(e, 'iface:%s#%d' % (key, i), tuple(idxs)) for i, e in enumerate(es)]
            return (vs[0] if len(vs) == 1 else VTuple(tuple(vs))), s
        raise Unsupported('call of %s on unknown dynamic type' % key)

    # ---- abstract (contract-based) call: results are a function of argument content
    def abstract_call(self, fname, args, s, where):
        self.abstracted.add(fname)
        f = self.P.funcs[fname]
        hook = self.models.get('abstract:' + fname)
        if hook is not None:
            return hook(self, s, args, where, fname)
        idxs = []
        for p, a in zip(f['params'], args):
            idxs += self.digest(s, a, p['t'])
        idxs = tuple(idxs)
        if fname in self.unify:
            idxs = self.same_call(fname, idxs, s)
        res = self.T.und(f['sig'])['res']
        es = self.T.und(res)['es']
        # a pointer receiver is rewritten to a function of the argument contents, unless the
        # contract of the callee says that it leaves its receiver alone
        if f['params'] and self.T.kind(f['params'][0]['t']) == 'ptr' and fname.startswith('(*') and fname not in self.pure:
            et = self.T.elem(f['params'][0]['t'])
            post = self.W.fresh(et, fname + '#post', idxs)
            s = s.fork()
            many = len(args[0].alts) > 1
            for g, addr in args[0].alts:
                self.write(s, addr, post, g if many else TRUE, where)
        vs = [self.W.fresh(e, '%s#%d' % (fname, i), idxs) for i, e in enumerate(es)]
        return (vs[0] if len(vs) == 1 else VTuple(tuple(vs))), s

    def same_call(self, fname, idxs, s):
        """the arguments of an earlier call that are provably the same here (so that the results are the same terms)"""
        before = self.calls.setdefault(fname, [])
        for old in before:
            if old is idxs or len(old) == len(idxs) and all(a is b for a, b in zip(old, idxs)):
                return old
        for old in reversed(before[-8:]):
            if len(old) != len(idxs) or any(a.sort != b.sort for a, b in zip(old, idxs)):
                continue
            c = AndL([Eq(a, b) for a, b in zip(old, idxs)])
            if c is not FALSE and self.solver.valid(s.pc.term(), c, self, 3000):
                return old
        before.append(idxs)
        return idxs

    # ---- builtins
    def builtin(self, fr, s, b, args, c, ins):
        W = self.W
        where = ins.get('p', '')
        if b == 'len':
            x = args[0]
            if isinstance(x, (VSlice, VStr)):
                return x.len
            if isinstance(x, VMap):
                r = Z64
                for g, (name, idxs, tid) in x.alts:
                    if name.startswith('new!') or self.getobj(s, ('M', name, idxs)).entries:
                        raise Unsupported('len of a map built here')
                    r = W.merge(g, W.length(name + '!count', idxs), r)
                return r
            raise Unsupported('len')
        if b == 'cap':
            if isinstance(args[0], VSlice):
                return args[0].cap
            raise Unsupported('cap')
        if b == 'append':
            return self.append(s, args[0], args[1], self.T.elem(ins['t']), where)
        if b == 'copy':
            return self.copy(s, args[0], args[1], where)
        if b in ('min', 'max'):
            sg = self.signed(ins['t'])
            r = args[0]
            for x in args[1:]:
                lt = Slt(x, r) if sg else Ult(x, r)
                r = Ite(lt if b == 'min' else Not(lt), x, r)
            return r
        if b == 'delete':
            return VTuple(()) if self.map_put(s, args[0], args[1], None, where) is not None else None
        if b == 'ssa:wrapnilchk':
            return args[0]
        if b in ('print', 'println'):
            return VTuple(())
        raise Unsupported('builtin ' + b)

    def append(self, s, dst, src, etid, where):
        W = self.W
        n = src.len
        if isc(n) and n.val == 0:
            return dst
        if isinstance(src, VStr):
            sa = src.arr
        else:
            sa = self.slice_arr(s, src)
            if sa is None:
                return dst
        da = self.slice_arr(s, dst)
        inplace = self.may_inplace(s, dst, n)
        if inplace is True:
            # write into the shared backing array
            for g, addr in dst.alts:
                arr = self.load_addr(s, addr)
                arr = self.splice(s, arr, Add(dst.off, dst.len), sa, src.off, n)
                self.write(s, addr, arr, g if len(dst.alts) > 1 else TRUE, where)
            return VSlice(dst.alts, dst.off, Add(dst.len, n), dst.cap)
        if inplace is None:
            raise Unsupported('append to a slice with unknown spare capacity at ' + where)
        o = self.newobj()
        if da is None:
            base, off = AZero(W.zero(etid)), Z64
        else:
            base, off = da, dst.off
            if isc(dst.len) and dst.len.val == 0:
                base, off = AZero(W.zero(etid)), Z64
        arr = self.splice(s, base, Add(off, dst.len), sa, src.off, n)
        s.mem[o] = arr
        self.otype[o] = ('arr', etid)
        nl = Add(dst.len, n)
        return VSlice(((TRUE, (o, ())),), off, nl, nl)

    def splice(self, s, arr, at, sa, soff, n):
        W = self.W
        if isc(n) and n.val <= 32:
            for i in range(n.val):
                arr = W.store(arr, Add(at, I64(i)), W.select(sa, Add(soff, I64(i)), s.known))
            return arr
        return W.copy(arr, at, sa, soff, n)

    def may_inplace(self, s, dst, n):
        """True: spare capacity certainly suffices; False: certainly (or by the growth model) not; None: unknown"""
        spare = Sub(dst.cap, dst.len)
        if isc(spare) and spare.val == 0:
            return False
        if not dst.alts:
            return False
        if isc(spare) and isc(n):
            return spare.val >= n.val
        if self.solver is not None:
            enough = Ule(n, spare)
            if self.solver.valid(s.pc.term(), enough, self):
                return True
            if self.solver.valid(s.pc.term(), Not(enough), self):
                return False
        return None

    def copy(self, s, dst, src, where):
        W = self.W
        n = Ite(Slt(src.len, dst.len), src.len, dst.len)
        lt = lit_value(Slt(src.len, dst.len), s.known)
        if lt is True:
            n = src.len
        elif lt is False:
            n = dst.len
        if isinstance(src, VStr):
            sa = src.arr
        else:
            sa = self.slice_arr(s, src)
        if sa is None or not dst.alts:
            return Z64 if (sa is None or not dst.alts) else n
        if isc(n) and n.val == 0:
            return n
        for g, addr in dst.alts:
            arr = self.load_addr(s, addr)
            arr = self.splice(s, arr, dst.off, sa, src.off, n)
            self.write(s, addr, arr, g if len(dst.alts) > 1 else TRUE, where)
        return n
