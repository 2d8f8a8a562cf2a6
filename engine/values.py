"""Symbolic values (interned), functional arrays, types."""
import terms
from terms import *


class Unsupported(Exception):
    pass


class Types:
    def __init__(self, tl):
        self.t = tl
        self._u = {}

    def und(self, i):
        r = self._u.get(i)
        if r is None:
            t = self.t[i]
            r = i
            while self.t[r]['k'] == 'named':
                r = self.t[r]['u']
            self._u[i] = r
        return self.t[r]

    def kind(self, i):
        if self.is_time(i):
            return 'time'
        return self.und(i)['k']

    def is_time(self, i):
        t = self.t[i]
        return t['k'] == 'named' and t['name'] == 'Time' and t.get('pkg') == 'time'

    def name(self, i):
        return self.t[i]['str']

    def elem(self, i):
        return self.und(i)['e']

    def is_error(self, i):
        u = self.und(i)
        return u['k'] == 'iface' and u['m'] == ['Error']


BASIC = {'bool': 'B', 'int': 64, 'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64,
         'uint': 64, 'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'uintptr': 64,
         'byte': 8, 'rune': 32, 'float64': 'R', 'float32': 'R',
         'untyped int': 64, 'untyped rune': 32, 'untyped bool': 'B', 'untyped float': 'R'}
SIGNED = {'int', 'int8', 'int16', 'int32', 'int64', 'rune', 'untyped int', 'untyped rune'}

_vt = {}
_vc = [1 << 40]


def _key(x):
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    if isinstance(x, (Term, V)):
        return ('#', x.id)
    return x


class V:
    __slots__ = ('id', 'f')
    names = ()

    def __new__(cls, *fields):
        k = (cls, tuple(_key(x) for x in fields))
        v = _vt.get(k)
        if v is None:
            v = object.__new__(cls)
            v.f = fields
            v.id = _vc[0]
            _vc[0] += 1
            _vt[k] = v
        return v

    def __init__(self, *a):
        pass

    def __repr__(self):
        return '%s%r' % (type(self).__name__, self.f)


def _prop(i):
    return property(lambda s: s.f[i])


class VStruct(V):
    __slots__ = ()
    fields = _prop(0)


class VTuple(V):
    __slots__ = ()
    items = _prop(0)


class VStr(V):      # arr, off, len
    __slots__ = ()
    arr = _prop(0)
    off = _prop(1)
    len = _prop(2)


class VSlice(V):    # alts ((g, addr)...), off, len, cap ; nil iff no guard holds
    __slots__ = ()
    alts = _prop(0)
    off = _prop(1)
    len = _prop(2)
    cap = _prop(3)


class VPtr(V):      # alts ((g, (obj, path))...)
    __slots__ = ()
    alts = _prop(0)


class VIface(V):    # alts ((g, typekey, payload)...)
    __slots__ = ()
    alts = _prop(0)


class VFunc(V):     # alts ((g, fname, bindings)...)
    __slots__ = ()
    alts = _prop(0)


class VMap(V):      # alts ((g, key)...)  key = (name, idxs)
    __slots__ = ()
    alts = _prop(0)


class VMapVal(V):   # what was written to a map: entries ((g, key, value or None)...), later ones win
    __slots__ = ()
    entries = _prop(0)


class VIter(V):     # iteration over a map: the map, the object with the position, a name for the order
    __slots__ = ()
    map = _prop(0)
    obj = _prop(1)
    name = _prop(2)
    tid = _prop(3)


class VOpaque(V):   # term   (opaque foreign value: channels, foreign structs)
    __slots__ = ()
    t = _prop(0)


NILPTR = VPtr(())
EMPTYMAP = VMapVal(())
NILIFACE = VIface(())
NILFUNC = VFunc(())
I64 = lambda v: bv(v, 64)
Z64 = I64(0)
NILSLICE = VSlice((), Z64, Z64, Z64)


# ------------------------------------------------------------------ arrays
class Arr(V):
    __slots__ = ()


class AZero(Arr):       # elem type id, zero value
    __slots__ = ()
    zero = _prop(0)


class ABytes(Arr):
    __slots__ = ()
    data = _prop(0)


class ABase(Arr):       # ctx-registered: name, idxs, elem tid
    __slots__ = ()
    name = _prop(0)
    idxs = _prop(1)
    elem = _prop(2)


class AStore(Arr):
    __slots__ = ()
    prev = _prop(0)
    idx = _prop(1)
    val = _prop(2)


class ACopy(Arr):       # prev, dstoff, src, srcoff, n
    __slots__ = ()
    prev = _prop(0)
    dst = _prop(1)
    src = _prop(2)
    srcoff = _prop(3)
    n = _prop(4)


class AIte(Arr):
    __slots__ = ()
    g = _prop(0)
    a = _prop(1)
    b = _prop(2)


class ABits(Arr):       # binary digits of v, most significant first; total length len (term)
    __slots__ = ()
    v = _prop(0)
    len = _prop(1)


EMPTYSTR = VStr(ABytes(b''), Z64, Z64)


def cstr(b):
    if isinstance(b, str):
        b = b.encode()
    return VStr(ABytes(bytes(b)), Z64, I64(len(b))) if b else EMPTYSTR


def opt_bytes_term(data, idx):
    """constant byte table at symbolic index: balanced ite on index bits"""
    n = len(data)
    if n == 0:
        return bv(0, 8)

    def build(lo, hi):
        if hi - lo == 1:
            return bv(data[lo], 8)
        mid = (lo + hi) // 2
        return Ite(Ult(idx, I64(mid)), build(lo, mid), build(mid, hi))
    return build(0, n)


class World:
    """shared context: types, lazily created symbolic values, axioms"""

    def __init__(self, types):
        self.nonnil = set()
        self.T = types
        self.sel = {}
        self.merge_memo = {}
        self.lazyobj = {}      # key -> (tid) initial content value
        self.zeros = {}
        self.maxlen = 1 << 40
        self.lenbound = {}
        self.strict_elem = {}

    # ---- zero / fresh
    def zero(self, tid):
        z = self.zeros.get(tid)
        if z is None:
            z = self._zero(tid)
            self.zeros[tid] = z
        return z

    def _zero(self, tid):
        T = self.T
        k = T.kind(tid)
        if k == 'time':
            return bv(1 << 63, 64)
        u = T.und(tid)
        if k == 'basic':
            n = u['name']
            if n == 'string' or n == 'untyped string':
                return EMPTYSTR
            if n == 'untyped nil' or n == 'invalid type':
                return NILPTR
            s = BASIC.get(n)
            if s is None:
                if n == 'unsafe.Pointer' or n.startswith('Pointer'):
                    return NILPTR
                raise Unsupported('zero of ' + n)
            if s == 'B':
                return FALSE
            if s == 'R':
                return realc(0)
            return bv(0, s)
        if k == 'struct':
            return VStruct(tuple(self.zero(f['t']) for f in u['f']))
        if k == 'array':
            return AZero(self.zero(u['e']))
        if k == 'ptr':
            return NILPTR
        if k == 'slice':
            return NILSLICE
        if k == 'iface':
            return NILIFACE
        if k == 'func':
            return NILFUNC
        if k == 'map':
            return VMap(())
        if k == 'chan':
            return VOpaque(bv(0, 32))
        if k == 'tuple':
            return VTuple(tuple(self.zero(e) for e in u['es']))
        raise Unsupported('zero of kind ' + k)

    def lazy(self, tid, name, idxs):
        key = ('L', name, idxs, tid)
        return key

    def content0(self, key):
        v = self.lazyobj.get(key)
        if v is None:
            _, name, idxs, tid = key
            if isinstance(tid, tuple):      # ('arr', elem)
                v = ABase(name, idxs, tid[1])
            else:
                v = self.fresh(tid, name, idxs)
            self.lazyobj[key] = v
        return v

    def fresh(self, tid, name, idxs=()):
        """unknown value of a type, whose leaves are uninterpreted functions of idxs"""
        T = self.T
        k = T.kind(tid)
        if k == 'time':
            return app(name, idxs, 64)
        u = T.und(tid)
        if k == 'basic':
            n = u['name']
            if n == 'string':
                return VStr(ABase(name + '$', idxs, self.bytetid()), Z64, self.length(name, idxs))
            s = BASIC.get(n)
            if s is None:
                raise Unsupported('fresh of ' + n)
            return app(name, idxs, s)
        if k == 'struct':
            return VStruct(tuple(self.fresh(f['t'], name + '.' + f['n'], idxs) for f in u['f']))
        if k == 'array':
            return ABase(name + '@', idxs, u['e'])
        if k == 'ptr':
            nn = app(name + '!nn', idxs, 'B')
            return VPtr(((nn, (self.lazy(u['e'], name + '*', idxs), ())),))
        if k == 'slice':
            ln = self.length(name, idxs)
            nn = Or(app(name + '!nn', idxs, 'B'), Not(Eq(ln, Z64)))
            cap = app(name + '!cap', idxs, 64)
            self.lenbound[cap.id] = (cap, ln)
            terms._rng.setdefault(cap.id, (0, self.maxlen))
            return VSlice(((nn, (self.lazy(('arr', u['e']), name + '$', idxs), ())),), Z64, ln, cap)
        if k == 'iface':
            nn = TRUE if name in self.nonnil else app(name + '!nn', idxs, 'B')
            if T.is_error(tid):
                return VIface(((nn, 'errs', app(name + '!code', idxs, 32)),))
            return VIface(((nn, 'opaque', app(name + '!id', idxs, ('U', 'Obj'))),))
        if k == 'map':
            nn = app(name + '!nn', idxs, 'B')
            return VMap(((nn, (name, idxs, tid)),))
        if k == 'chan':
            return VOpaque(app(name, idxs, 32))
        if k == 'func':
            return VFunc(((app(name + '!nn', idxs, 'B'), '?' + name, idxs),))
        raise Unsupported('fresh of kind %s (%s)' % (k, T.name(tid)))

    def length(self, name, idxs):
        ln = app(name + '!len', idxs, 64)
        self.lenbound[ln.id] = (ln, None)
        terms._rng.setdefault(ln.id, (0, self.maxlen))
        return ln

    def bounded(self, t):
        """t is a length or a position: at most maxlen"""
        self.lenbound.setdefault(t.id, (t, None))
        terms._rng.setdefault(t.id, (0, self.maxlen))

    def bytetid(self):
        for i, t in enumerate(self.T.t):
            if t['k'] == 'basic' and t['name'] in ('uint8', 'byte'):
                return i
        raise Unsupported('no byte type')

    # ---- select
    def select(self, arr, idx, known=None):
        while True:
            if isinstance(arr, AIte):
                v = lit_value(arr.g, known) if known else None
                if v is True:
                    arr = arr.a
                    continue
                if v is False:
                    arr = arr.b
                    continue
            elif isinstance(arr, AStore):
                e = Eq(arr.idx, idx)
                if e is TRUE:
                    return arr.val
                if e is FALSE:
                    arr = arr.prev
                    continue
                if known:
                    v = lit_value(e, known)
                    if v is True:
                        return arr.val
                    if v is False:
                        arr = arr.prev
                        continue
            elif isinstance(arr, ACopy):
                d = Sub(idx, arr.dst)
                e = Ult(d, arr.n)
                v = lit_value(e, known) if known else (True if e is TRUE else False if e is FALSE else None)
                if v is True:
                    arr, idx = arr.src, Add(d, arr.srcoff)
                    continue
                if v is False:
                    arr = arr.prev
                    continue
            break
        if known and isinstance(known, Lits) and isinstance(arr, (AIte, AStore, ACopy)):
            kk = ('s', arr.id, idx.id)
            r = known.memo.get(kk)
            if r is None:
                r = self._selectk(arr, idx, known)
                known.memo[kk] = r
            return r
        mkey = (arr.id, idx.id)
        r = self.sel.get(mkey)
        if r is None:
            r = self._select(arr, idx)
            self.sel[mkey] = r
        return r

    def _selectk(self, arr, idx, known):
        if isinstance(arr, AStore):
            return self.merge(Eq(arr.idx, idx), arr.val, self.select(arr.prev, idx, known))
        if isinstance(arr, ACopy):
            d = Sub(idx, arr.dst)
            return self.merge(Ult(d, arr.n), self.select(arr.src, Add(d, arr.srcoff), known), self.select(arr.prev, idx, known))
        return self.merge(arr.g, self.select(arr.a, idx, known), self.select(arr.b, idx, known))

    def _select(self, arr, idx):
        if isinstance(arr, AZero):
            return arr.zero
        if isinstance(arr, ABytes):
            if isc(idx):
                return bv(arr.data[idx.val], 8) if idx.val < len(arr.data) else bv(0, 8)
            return opt_bytes_term(arr.data, idx)
        if isinstance(arr, ABase):
            return self.fresh(arr.elem, arr.name + '[]', arr.idxs + (idx,))
        if isinstance(arr, AStore):
            return self.merge(Eq(arr.idx, idx), arr.val, self.select(arr.prev, idx))
        if isinstance(arr, ACopy):
            d = Sub(idx, arr.dst)
            return self.merge(Ult(d, arr.n), self.select(arr.src, Add(d, arr.srcoff)), self.select(arr.prev, idx))
        if isinstance(arr, AIte):
            return self.merge(arr.g, self.select(arr.a, idx), self.select(arr.b, idx))
        if isinstance(arr, ABits):
            # digit i is bit (len-1-i) of v
            n = arr.v.sort
            pos = Sub(Sub(arr.len, I64(1)), idx)
            if isc(pos):
                b = Extract(pos.val, pos.val, arr.v) if pos.val < n else bv(0, 1)
            else:
                p = Extract(n - 1, 0, pos) if n < 64 else pos
                sh = Lshr(arr.v, p)
                b = Ite(Ult(pos, I64(n)), Extract(0, 0, sh), bv(0, 1))
            return Concat(bv(0x30 >> 1, 7), b)
        raise Unsupported('select on %r' % type(arr))

    def store(self, arr, idx, val):
        if isinstance(arr, AStore) and arr.idx is idx:
            arr = arr.prev
        return AStore(arr, idx, val)

    def copy(self, prev, dst, src, srcoff, n):
        if isc(n) and n.val == 0:
            return prev
        return ACopy(prev, dst, src, srcoff, n)

    # ---- merge
    def merge(self, g, a, b):
        if a is b or g is TRUE:
            return a
        if g is FALSE:
            return b
        if isinstance(a, Term) and isinstance(b, Term):
            return Ite(g, a, b)
        k = (g.id, a.id, b.id)
        r = self.merge_memo.get(k)
        if r is None:
            r = self._merge(g, a, b)
            self.merge_memo[k] = r
        return r

    def _altmerge(self, g, la, lb):
        out = {}
        order = []
        for gg, lst in ((g, la), (Not(g), lb)):
            for alt in lst:
                k = _key(alt[1:])
                c = And(gg, alt[0])
                if k in out:
                    out[k] = (Or(out[k][0], c),) + alt[1:]
                else:
                    out[k] = (c,) + alt[1:]
                    order.append(k)
        return tuple(out[k] for k in order if out[k][0] is not FALSE)

    def _merge(self, g, a, b):
        if type(a) is not type(b) and not (isinstance(a, Arr) and isinstance(b, Arr)):
            raise Unsupported('merge %s/%s' % (type(a).__name__, type(b).__name__))
        if isinstance(a, VStruct):
            return VStruct(tuple(self.merge(g, x, y) for x, y in zip(a.fields, b.fields)))
        if isinstance(a, VTuple):
            return VTuple(tuple(self.merge(g, x, y) for x, y in zip(a.items, b.items)))
        if isinstance(a, VStr):
            if a.arr is b.arr:
                return VStr(a.arr, Ite(g, a.off, b.off), Ite(g, a.len, b.len))
            if isc(a.len) and a.len.val == 0:
                return VStr(b.arr, b.off, Ite(g, a.len, b.len))
            if isc(b.len) and b.len.val == 0:
                return VStr(a.arr, a.off, Ite(g, a.len, b.len))
            return VStr(self.merge(g, a.arr, b.arr), Ite(g, a.off, b.off), Ite(g, a.len, b.len))
        if isinstance(a, VSlice):
            oa, ob = a.off, b.off
            if not a.alts:
                oa = ob
            if not b.alts:
                ob = oa
            return VSlice(self._altmerge(g, a.alts, b.alts), Ite(g, oa, ob), Ite(g, a.len, b.len), Ite(g, a.cap, b.cap))
        if isinstance(a, (VPtr, VFunc, VMap)):
            return type(a)(self._altmerge(g, a.alts, b.alts))
        if isinstance(a, VIface):
            da = {x[1]: x for x in a.alts}
            db = {x[1]: x for x in b.alts}
            out = []
            for k in list(da) + [k for k in db if k not in da]:
                if k in da and k in db:
                    ga, gb = And(g, da[k][0]), And(Not(g), db[k][0])
                    gg = Or(ga, gb)
                    if da[k][2] is db[k][2]:
                        out.append((gg, k, da[k][2]))
                    else:
                        out.append((gg, k, self.merge(g, da[k][2], db[k][2])))
                elif k in da:
                    out.append((And(g, da[k][0]), k, da[k][2]))
                else:
                    out.append((And(Not(g), db[k][0]), k, db[k][2]))
            return VIface(tuple(x for x in out if x[0] is not FALSE))
        if isinstance(a, Arr):
            # common-suffix peeling
            if isinstance(a, AStore) and isinstance(b, AStore) and a.idx is b.idx:
                return self.store(self.merge(g, a.prev, b.prev), a.idx, self.merge(g, a.val, b.val))
            if isinstance(a, AIte) and a.g is g:
                a = a.a
            if isinstance(b, AIte) and b.g is g:
                b = b.b
            if a is b:
                return a
            if flip(g):
                return AIte(Not(g), b, a)
            return AIte(g, a, b)
        if isinstance(a, VMapVal):
            n = 0
            while n < len(a.entries) and n < len(b.entries) and _key(a.entries[n]) == _key(b.entries[n]):
                n += 1
            return VMapVal(a.entries[:n] + tuple((And(g, x[0]),) + x[1:] for x in a.entries[n:]) + tuple((And(Not(g), x[0]),) + x[1:] for x in b.entries[n:]))
        if isinstance(a, VIter):
            if a.obj == b.obj and a.map is b.map:
                return a
        if isinstance(a, VOpaque):
            return VOpaque(Ite(g, a.t, b.t))
        raise Unsupported('merge of %s' % type(a).__name__)

    def refine(self, v, known):
        if not known:
            return v
        if isinstance(v, Term):
            return refine(v, known)
        if isinstance(v, (VPtr, VSlice, VIface, VMap)):
            ch = False
            out = []
            for a in v.alts:
                x = lit_value(a[0], known)
                if x is False:
                    ch = True
                    continue
                if x is True and a[0] is not TRUE:
                    ch = True
                    a = (TRUE,) + a[1:]
                p = a[2] if isinstance(v, VIface) else None
                if p is not None:
                    q = self.refine(p, known)
                    if q is not p:
                        a = (a[0], a[1], q)
                        ch = True
                out.append(a)
            if isinstance(v, VSlice):
                o, l, c = refine(v.off, known), refine(v.len, known), refine(v.cap, known)
                if ch or o is not v.off or l is not v.len or c is not v.cap:
                    return VSlice(tuple(out), o, l, c)
                return v
            return type(v)(tuple(out)) if ch else v
        if isinstance(v, VStr):
            o, l = refine(v.off, known), refine(v.len, known)
            arr = v.arr
            while isinstance(arr, AIte):
                x = lit_value(arr.g, known)
                if x is True:
                    arr = arr.a
                elif x is False:
                    arr = arr.b
                else:
                    break
            return VStr(arr, o, l)
        if isinstance(v, VStruct):
            nf = tuple(self.refine(x, known) for x in v.fields)
            if any(x is not y for x, y in zip(nf, v.fields)):
                return VStruct(nf)
            return v
        if isinstance(v, VTuple):
            nf = tuple(self.refine(x, known) for x in v.items)
            return VTuple(nf)
        if isinstance(v, AIte):
            x = lit_value(v.g, known)
            if x is True:
                return self.refine(v.a, known)
            if x is False:
                return self.refine(v.b, known)
        return v
