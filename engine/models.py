"""Models of external functions and of the contract intrinsics (package vrt)."""
import re
import datetime
from execu import *

EPOCH = 1262304000  # 2010-01-01T00:00:00Z
NS = 1000000000


def short(fname):
    return re.sub(r'(?:[\w.\-]+/)+', '', fname)


def res_types(ex, fname):
    f = ex.P.funcs.get(fname)
    if f is not None:
        return ex.T.und(ex.T.und(f['sig'])['res'])['es']
    return None


def pack(vs):
    return vs[0] if len(vs) == 1 else VTuple(tuple(vs))


def ptr_alts_obj(p):
    return p.alts


# ------------------------------------------------------------- generic opaque result
def opaque(ex, st, args, where, fname, argtids=None, res=None, name=None):
    """result is an unknown function of the argument contents"""
    f = ex.P.funcs.get(fname)
    idxs = []
    es = res if res is not None else res_types(ex, fname)
    if es is None:
        raise Unsupported('external function ' + fname)
    try:
        for p, a in zip(f['params'], args):
            idxs += ex.digest(st, a, p['t'])
    except Unsupported:
        idxs = [var(ex.freshname('oq'), 64)]
    vs = [ex.W.fresh(e, '%s#%d' % (name or fname, i), tuple(idxs)) for i, e in enumerate(es)]
    return pack(vs), st


def m_atoi(ex, st, args, where, fname, depth=0):
    """exact for constants, else an unknown function of the text"""
    x = args[0]
    c = ex.const_bytes(x)
    if c is not None:
        if re.fullmatch(rb'[+-]?[0-9]+', c):
            n = int(c)
            if -2 ** 63 <= n < 2 ** 63:
                return VTuple((I64(n), NILIFACE)), st
            return VTuple((I64(2 ** 63 - 1 if n > 0 else -2 ** 63), ex.errval(78))), st
        return VTuple((Z64, ex.errval(78))), st
    if isinstance(x.arr, AIte) and depth < 4:
        g = x.arr.g

        def peel(t, i):
            return t.args[i] if t.op == 'ite' and t.args[0] is g else t
        ra, _ = m_atoi(ex, st, [VStr(x.arr.a, peel(x.off, 1), peel(x.len, 1))], where, fname, depth + 1)
        rb, _ = m_atoi(ex, st, [VStr(x.arr.b, peel(x.off, 2), peel(x.len, 2))], where, fname, depth + 1)
        return ex.W.merge(g, ra, rb), st
    return opaque(ex, st, args, where, fname)


def m_noop(ex, st, args, where, fname):
    es = res_types(ex, fname) or []
    vs = []
    for e in es:
        if ex.T.kind(e) == 'ptr':
            vs.append(VPtr(((TRUE, (('L', 'noop:' + short(fname), (), ex.T.elem(e)), ())),)))
        else:
            vs.append(ex.W.fresh(e, ex.freshname('noop')))
    return (pack(vs) if vs else VTuple(())), st


def m_logrus(ex, st, args, where, fname):
    if fname.endswith(('.Fatal', '.Fatalf', '.Fatalln', '.Exit')):
        ex.note_exit(st, 'log.Fatal')
        return None
    if fname.endswith(('.Panic', '.Panicf', '.Panicln')):
        ex.oblige(st, FALSE, 'panic', where)
        return None
    return m_noop(ex, st, args, where, fname)


def m_identity(ex, st, args, where, fname):
    return args[0], st


# ------------------------------------------------------------- errors
def m_newerr(ex, st, args, where, fname):
    return ex.errval(), st


def m_errors_is(ex, st, args, where, fname):
    a, b = args
    # without wrapping information: equal values satisfy Is, otherwise unknown
    nb = Not(OrL([x[0] for x in a.alts]))
    e = ex.equal(st, a, b)
    u = var(ex.freshname('errorsIs'), 'B')
    # io errors are never wrapped by the readers modelled here
    ca = [x[2] for x in a.alts if x[1] == 'errs']
    arb = [x for x in a.alts if x[1] == 'errs' and x[2].op == 'app' and str(x[2].val).startswith('choice:')]
    if arb:
        w = [And(x[0], app('err!wraps', (x[2], y[2]), 'B')) for x in arb for y in b.alts if y[1] == 'errs']
        return Or(e, OrL(w)), st
    if all(isc(c) or c.op in ('ite', 'app', 'var') for c in ca):
        return e, st
    return Or(e, And(Not(nb), u)), st


# ------------------------------------------------------------- fmt
FMT = re.compile(rb'%([#0+\- ]*)(\d*)(?:\.(\d+))?([a-zA-Z%])')


def varargs(ex, st, sl):
    if not isc(sl.len):
        return None
    arr = ex.slice_arr(st, sl)
    return [ex.W.select(arr, Add(sl.off, I64(i)), st.known) for i in range(sl.len.val)]


def fmt_string(ex, st, fmtb, items):
    """precise result for the simple verbs, or None"""
    pos = 0
    out = EMPTYSTR
    k = 0
    for m in FMT.finditer(fmtb):
        out = ex.concat(out, cstr(fmtb[pos:m.start()]))
        pos = m.end()
        verb = m.group(4)
        if verb == b'%':
            out = ex.concat(out, cstr(b'%'))
            continue
        if k >= len(items):
            return None
        a = items[k]
        k += 1
        if len(a.alts) != 1 or a.alts[0][0] is not TRUE:
            return None
        _, key, p = a.alts[0]
        if not isinstance(key, int):
            return None
        u = ex.T.und(key)
        if verb in b'sv' and isinstance(p, VStr) and not m.group(2) and not m.group(1):
            out = ex.concat(out, p)
            continue
        if verb == b'b' and isinstance(p, Term) and isinstance(p.sort, int) and not ex.signed(key) and m.group(1) in (b'0', b''):
            w = int(m.group(2) or b'0')
            if m.group(1) == b'' and w > 1:
                return None
            w = max(w, 1)
            n = p.sort
            ln = I64(w)
            if n > w:
                hi = urange(p)[1]
                for i in range(w, n):
                    if hi >> i == 0:
                        break
                    ln = Ite(Not(Ult(p, bv(1 << i, n))), I64(i + 1), ln)
            out = ex.concat(out, VStr(ABits(p, ln), Z64, ln))
            continue
        if verb == b'd' and isinstance(p, Term) and isc(p):
            v = sgn(p.val, p.sort) if ex.signed(key) else p.val
            if not m.group(2):
                out = ex.concat(out, cstr(b'%d' % v))
                continue
        return None
    out = ex.concat(out, cstr(fmtb[pos:]))
    if k != len(items):
        return None
    return out


def m_sprintf(ex, st, args, where, fname):
    fb = ex.const_bytes(args[0])
    items = varargs(ex, st, args[1])
    if fb is not None and items is not None:
        r = fmt_string(ex, st, fb, items)
        if r is not None:
            return r, st
    idxs = []
    nm = 'sprintf:' + (fb.decode('utf8', 'replace') if fb is not None else '?')
    try:
        if items is None or fb is None:
            raise Unsupported('x')
        for it in items:
            idxs += ex.digest(st, it, None)
    except Unsupported:
        idxs = [var(ex.freshname('spf'), 64)]
    return ex.W.fresh(ex.string_tid(), nm, tuple(idxs)), st


# ------------------------------------------------------------- strconv
def m_parseuint(ex, st, args, where, fname):
    s, base, bits = args
    W = ex.W
    errt = res_types(ex, fname)[1]

    def opq():
        d = [s.len, ex.seqdig(st, s.arr, s.off, s.len, None), base, bits]
        return (app('parseuint', tuple(d), 64), W.fresh(errt, 'parseuint#err', tuple(d)))
    if not (isc(base) and base.val == 2 and isc(bits) and bits.val in (0, 8, 16, 32, 64)):
        v, e = opq()
        return VTuple((v, e)), st
    nb = bits.val or 64
    mx = (1 << nb) - 1
    maxn = 9

    def exact(n):
        if n == 0:
            return bv(0, 64), FALSE
        ok = TRUE
        v = None
        for i in range(n):
            c = W.select(s.arr, Add(s.off, I64(i)), st.known)
            ok = And(ok, Eq(Extract(7, 1, c), bv(0x18, 7)))
            b = Extract(0, 0, c)
            v = b if v is None else Concat(v, b)
        if n > nb:
            hi = Extract(n - 1, nb, v)
            over = Ne(hi, bv(0, n - nb))
            val = Ite(over, bv(mx, 64), ZExt(Extract(nb - 1, 0, v), 64))
            return Ite(ok, val, bv(0, 64)), And(ok, Not(over))
        return Ite(ok, ZExt(v, 64), bv(0, 64)), ok
    if isc(s.len):
        if s.len.val <= 64:
            v, ok = exact(s.len.val)
        else:
            v, e = opq()
            return VTuple((v, e)), st
    else:
        v, e = opq()
        ok = Not(OrL([a[0] for a in e.alts]))
        for n in range(maxn, -1, -1):
            c = Eq(s.len, I64(n))
            lv = lit_value(c, st.known)
            if lv is False or c is FALSE:
                continue
            vv, oo = exact(n)
            v = Ite(c, vv, v)
            ok = Ite(c, oo, ok)
    code = bv(77, 32)
    return VTuple((v, VIface(() if ok is TRUE else ((Not(ok), 'errs', code),)))), st


# ------------------------------------------------------------- io / bytes / binary
def buffer_types(ex, key):
    n = ex.T.name(key)
    return n if n in ('*bytes.Reader', '*bytes.Buffer') else None


def m_readfull(ex, st, args, where, fname):
    r, b = args
    r = ex.W.refine(r, st.known)
    nn = OrL([a[0] for a in r.alts])
    if not ex.oblige(st, nn, 'nil-deref', where):
        return None
    outs = []
    for g, key, p in r.alts:
        pc = st.pc.add(g)
        if pc is None:
            continue
        s2 = State(pc, dict(st.mem), st.log)
        kind = buffer_types(ex, key) if isinstance(key, int) else None
        if kind is None:
            fn = ex.P.methods.get(str(key), {}).get('VrtReadFull') if isinstance(key, int) else None
            if fn is None and isinstance(key, int):
                fn = ex.replaced.get('(%s).VrtReadFull' % ex.T.name(key))     # a contract for a foreign type
            if fn is None:
                raise Unsupported('io.ReadFull on ' + str(key))
            rr = ex.call(fn, [p, b], s2, where)
            if rr is not None:
                outs.append((rr[1], {'r': rr[0]}))
            continue
        rr = readfull_mem(ex, s2, kind, p, b, where)
        outs.append((rr[1], {'r': rr[0]}))
    if not outs:
        return None
    s3, e = ex.mergeN(outs)
    return e['r'], s3


def mem_fields(ex, s, kind, p):
    """(data slice/string arr, off, len of whole, index term) of a Reader/Buffer"""
    v = None
    for g, addr in reversed(p.alts):
        x = ex.load_addr(s, addr)
        v = x if v is None else ex.W.merge(g, x, v)
    return v


def readfull_mem(ex, s, kind, p, b, where):
    W = ex.W
    et = [i for i, t in enumerate(ex.P.js['types']) if t['str'] == kind[1:]][0]
    names = [f['n'] for f in ex.T.und(et)['f']]
    di = names.index('s' if kind == '*bytes.Reader' else 'buf')
    oi = names.index('i' if kind == '*bytes.Reader' else 'off')
    v = mem_fields(ex, s, kind, p)
    data, pos = v.fields[di], v.fields[oi]
    # well-formed readers keep 0 <= pos <= len(data)
    rem = Sub(data.len, pos)
    need = b.len
    outs = []
    zero = Eq(need, Z64)
    full = And(Not(zero), Ule(Add(pos, need), data.len))
    fail = And(Not(zero), Not(Ule(Add(pos, need), data.len)))
    for c, mode in ((zero, 'zero'), (full, 'full'), (fail, 'fail')):
        pc = s.pc.add(c)
        if pc is None:
            continue
        s2 = State(pc, dict(s.mem), s.log)
        if mode == 'zero':
            outs.append((s2, {'r': VTuple((Z64, NILIFACE))}))
            continue
        n = need if mode == 'full' else rem
        sa = ex.slice_arr(s2, data)
        for g, addr in b.alts:
            arr = ex.load_addr(s2, addr)
            arr = ex.splice(s2, arr, b.off, sa, Add(data.off, pos), n)
            ex.write(s2, addr, arr, g if len(b.alts) > 1 else TRUE, where)
        for g, addr in p.alts:
            a2 = (addr[0], addr[1] + (oi,))
            ex.write(s2, a2, Add(pos, n), g if len(p.alts) > 1 else TRUE, where)
        er = NILIFACE if mode == 'full' else VIface(((TRUE, 'errs', Ite(Eq(rem, Z64), bv(1, 32), bv(2, 32))),))
        outs.append((s2, {'r': VTuple((n, er))}))
    s3, e = ex.mergeN(outs)
    return e['r'], s3


def buf_type(ex):
    r = getattr(ex.P, '_buft', None)
    if r is None:
        r = [i for i, t in enumerate(ex.P.js['types']) if t['str'] == 'bytes.Buffer'][0]
        ex.P._buft = r
    return r


def builder_type(ex):
    r = getattr(ex.P, '_sbt', None)
    if r is None:
        r = [i for i, t in enumerate(ex.P.js['types']) if t['str'] == 'strings.Builder'][0]
        ex.P._sbt = r
    return r


def builder_buf(ex, st, p, where):
    """the bytes written so far to a strings.Builder"""
    p = ex.W.refine(p, st.known)
    if not ex.oblige(st, OrL([a[0] for a in p.alts]), 'nil-deref', where):
        return None
    v = ex.load(st, p, where)
    names = [f['n'] for f in ex.T.und(builder_type(ex))['f']]
    return v.fields[names.index('buf')]


def m_sb_write(ex, st, args, where, fname):
    if not buf_append(ex, st, args[0], args[1], where, builder_type(ex)):
        return None
    return VTuple((args[1].len, NILIFACE)), st


def m_sb_writebyte(ex, st, args, where, fname):
    if not buf_append(ex, st, args[0], const_slice(ex, st, [args[1]]), where, builder_type(ex)):
        return None
    return NILIFACE, st


def m_sb_string(ex, st, args, where, fname):
    b = builder_buf(ex, st, args[0], where)
    if b is None:
        return None
    arr = ex.slice_arr(st, b)
    return (cstr(b'') if arr is None else VStr(arr, b.off, b.len)), st


def m_sb_len(ex, st, args, where, fname):
    b = builder_buf(ex, st, args[0], where)
    return None if b is None else (b.len, st)


def buf_append(ex, st, p, src, where, bt=None):
    """functional append to a bytes.Buffer"""
    W = ex.W
    p = W.refine(p, st.known)
    if not ex.oblige(st, OrL([a[0] for a in p.alts]), 'nil-deref', where):
        return False
    bt = buf_type(ex) if bt is None else bt
    names = [f['n'] for f in ex.T.und(bt)['f']]
    bi = names.index('buf')
    for g, addr in p.alts:
        a2 = (addr[0], addr[1] + (bi,))
        cur = ex.load_addr(st, a2)
        cur = VSlice(cur.alts, cur.off, cur.len, cur.len)
        new = ex.append(st, cur, src, W.bytetid(), where)
        ex.write(st, a2, new, g if len(p.alts) > 1 else TRUE, where)
    return True


def const_slice(ex, st, terms):
    W = ex.W
    a = AZero(bv(0, 8))
    for i, t in enumerate(terms):
        a = W.store(a, I64(i), t)
    n = I64(len(terms))
    return VStr(a, Z64, n)


def m_buf_write(ex, st, args, where, fname):
    if not buf_append(ex, st, args[0], args[1], where):
        return None
    return VTuple((args[1].len, NILIFACE)), st


def m_buf_writebyte(ex, st, args, where, fname):
    if not buf_append(ex, st, args[0], const_slice(ex, st, [args[1]]), where):
        return None
    return NILIFACE, st


def m_buf_grow(ex, st, args, where, fname):
    return VTuple(()), st


def enc_bytes(ex, st, p, tid, big):
    """bytes of a fixed-size value, None when not modelled"""
    u = ex.T.und(tid)
    if u['k'] == 'ptr':
        v = ex.load(st, p, 'binary.Write')
        return enc_bytes(ex, st, v, u['e'], big)
    if u['k'] == 'basic' and u['name'] not in ('int', 'uint', 'uintptr', 'string'):
        n = BASIC.get(u['name'])
        if n == 'B':
            return [Ite(p, bv(1, 8), bv(0, 8))]
        if isinstance(n, int):
            bs = [Extract(8 * i + 7, 8 * i, p) for i in range(n // 8)]
            return bs[::-1] if big else bs
    if u['k'] == 'struct':
        out = []
        for f, x in zip(u['f'], p.fields):
            r = enc_bytes(ex, st, x, f['t'], big)
            if r is None:
                return None
            out += r
        return out
    if u['k'] == 'array' and u['n'] <= 64:
        out = []
        for i in range(u['n']):
            r = enc_bytes(ex, st, ex.W.select(p, I64(i)), u['e'], big)
            if r is None:
                return None
            out += r
        return out
    return None


def m_binwrite(ex, st, args, where, fname):
    w, order, data = args
    w = ex.W.refine(w, st.known)
    data = ex.W.refine(data, st.known)
    order = ex.W.refine(order, st.known)
    if len(w.alts) != 1 or len(data.alts) != 1 or len(order.alts) != 1:
        raise Unsupported('binary.Write with several dynamic types')
    if buffer_types(ex, w.alts[0][1]) != '*bytes.Buffer':
        raise Unsupported('binary.Write to ' + ex.T.name(w.alts[0][1]))
    big = 'big' in ex.T.name(order.alts[0][1]).lower()
    key, p = data.alts[0][1], data.alts[0][2]
    u = ex.T.und(key)
    if u['k'] == 'slice' and ex.width(u['e']) == 8:
        src = p
    else:
        bs = enc_bytes(ex, st, p, key, big)
        if bs is None:
            if u['k'] == 'basic':
                return ex.errval(), st
            raise Unsupported('binary.Write of ' + ex.T.name(key))
        src = const_slice(ex, st, bs)
    if not buf_append(ex, st, w.alts[0][2], src, where):
        return None
    return NILIFACE, st


def m_binread(ex, st, args, where, fname):
    r, order, data = args
    key, p = data.alts[0][1], data.alts[0][2]
    big = 'big' in ex.T.name(order.alts[0][1]).lower()
    u = ex.T.und(key)
    if u['k'] != 'ptr':
        raise Unsupported('binary.Read into ' + ex.T.name(key))
    n = ex.width(u['e'])
    if not isinstance(n, int) or ex.T.und(u['e'])['name'] in ('int', 'uint'):
        raise Unsupported('binary.Read into ' + ex.T.name(key))
    o = ex.newobj()
    st.mem[o] = AZero(bv(0, 8))
    ex.otype[o] = ('arr', ex.W.bytetid())
    k = n // 8
    b = VSlice(((TRUE, (o, ())),), Z64, I64(k), I64(k))
    rr = m_readfull(ex, st, [r, b], where, fname)
    if rr is None:
        return None
    v, st = rr
    st = st.fork()
    err = v.items[1]
    ok = Not(OrL([a[0] for a in err.alts]))
    bs = [ex.W.select(st.mem[o], I64(i), st.known) for i in range(k)]
    if not big:
        bs = bs[::-1]
    t = None
    for x in bs:
        t = x if t is None else Concat(t, x)
    for g, addr in p.alts:
        ex.write(st, addr, t, And(g, ok), where)
    return err, st


def chain(arr, off, out, depth=0):
    """stores and copies that make up an array: (kind, node, index shift)"""
    while depth < 60:
        depth += 1
        if isinstance(arr, AIte):
            chain(arr.a, off, out, depth)
            arr = arr.b
        elif isinstance(arr, AStore):
            out.append(('store', arr, off))
            arr = arr.prev
        elif isinstance(arr, ACopy):
            # position p of arr is position p-dst+srcoff of src
            out.append(('copy', arr, off))
            chain(arr.src, Add(off, Sub(arr.srcoff, arr.dst)), out, depth)
            arr = arr.prev
        else:
            out.append(('base', arr, off))
            return


def index_facts(ex, st, arr, off, rem, delim, i):
    """instances of: i is the first position of delim in arr[off:off+rem], else rem"""
    W = ex.W
    ex.assume_def(st, Ule(i, rem))
    at = Add(off, i)
    ex.assume_def(st, Implies(Ult(i, rem), Eq(W.select(arr, at), delim)))
    ch = []
    chain(arr, Z64, ch)
    seen = set()
    for k, a, sh in ch:
        if k == 'store' and a.val is delim:
            # store index in coordinates of arr: idx - sh
            p = Sub(Sub(a.idx, sh), off)
            if p.id not in seen:
                seen.add(p.id)
                ex.assume_def(st, Implies(And(Ult(p, rem), Eq(W.select(arr, Add(off, p)), delim)), Ule(i, p)))
    for b, barr, boff, blen, c in ex.nobytes:
        for k, a, sh in ch:
            if a is barr:
                j = Add(at, sh)
                key = (j.id, b.id)
                if key not in seen:
                    seen.add(key)
                    ex.assume_def(st, Implies(And(b, Ult(Sub(j, boff), blen)), Ne(W.select(barr, j), c)))


def v_nobyte(ex, st, args, where, fname):
    s, c = args
    i = app('indexbyte', (ex.seqdig(st, s.arr, s.off, s.len, None), s.len, c), 64)
    ex.W.bounded(i)
    index_facts(ex, st, s.arr, s.off, s.len, c, i)
    b = Not(Ult(i, s.len))
    ex.nobytes.append((b, s.arr, s.off, s.len, c))
    return b, st


def m_readstring(ex, st, args, where, fname):
    """(*bytes.Buffer).ReadString / ReadBytes: first position of the delimiter is an unknown term
    with its defining facts instantiated for the positions the proof looks at"""
    p, delim = args
    W = ex.W
    p = W.refine(p, st.known)
    if not ex.oblige(st, OrL([a[0] for a in p.alts]), 'nil-deref', where):
        return None
    bt = buf_type(ex)
    names = [f['n'] for f in ex.T.und(bt)['f']]
    bi, oi = names.index('buf'), names.index('off')
    v = mem_fields(ex, st, '*bytes.Buffer', p)
    data, pos = v.fields[bi], v.fields[oi]
    rem = Sub(data.len, pos)
    arr = ex.slice_arr(st, data)
    if arr is None:
        return VTuple((EMPTYSTR if fname.endswith('String') else NILSLICE, ex.errval(1))), st
    dg = ex.seqdig(st, arr, Add(data.off, pos), rem, None)
    i = app('indexbyte', (dg, rem, delim), 64)
    W.bounded(i)
    index_facts(ex, st, arr, Add(data.off, pos), rem, delim, i)
    found = Ult(i, rem)
    n = Ite(found, Add(i, I64(1)), rem)
    for g, addr in p.alts:
        ex.write(st, (addr[0], addr[1] + (oi,)), Add(pos, n), g if len(p.alts) > 1 else TRUE, where)
    err = W.merge(found, NILIFACE, ex.errval(1))
    s = VStr(arr, Add(data.off, pos), n)
    if fname.endswith('Bytes'):
        o = ex.newobj()
        st.mem[o] = arr
        ex.otype[o] = ('arr', W.bytetid())
        return VTuple((VSlice(((TRUE, (o, ())),), Add(data.off, pos), n, n), err)), st
    return VTuple((s, err)), st


def m_indexbyte(ex, st, args, where, fname):
    b, delim = args
    W = ex.W
    arr = b.arr if isinstance(b, VStr) else ex.slice_arr(st, b)
    if arr is None:
        return bv(-1, 64), st
    dg = ex.seqdig(st, arr, b.off, b.len, None)
    i = app('indexbyte', (dg, b.len, delim), 64)
    W.bounded(i)
    index_facts(ex, st, arr, b.off, b.len, delim, i)
    return Ite(Ult(i, b.len), i, bv(-1, 64)), st


# ------------------------------------------------------------- time
def m_date(ex, st, args, where, fname):
    vals = []
    for a in args[:7]:
        if not isc(a):
            return opaque(ex, st, args[:7], where, fname)
        vals.append(sgn(a.val, a.sort))
    y, mo, d, h, mi, s, ns = vals
    try:
        t = datetime.datetime(y, mo, d, h, mi, s, tzinfo=datetime.timezone.utc)
    except ValueError:
        raise Unsupported('time.Date with out-of-range constants')
    sec = int((t - datetime.datetime(2010, 1, 1, tzinfo=datetime.timezone.utc)).total_seconds())
    v = sec * NS + ns
    if abs(v) >= 1 << 62:
        return bv(zlib_hash(v), 64), st
    return bv(v, 64), st


def zlib_hash(v):
    return (v & ((1 << 61) - 1)) | (1 << 62)


def floordiv(t, d):
    neg = Slt(t, Z64)
    if neg is FALSE:
        return Udiv(t, I64(d))
    q = Neg(Udiv(Add(Neg(t), I64(d - 1)), I64(d)))
    return Ite(neg, q, Udiv(t, I64(d)))


def m_time_add(ex, st, args, where, fname):
    return Add(args[0], args[1]), st


def m_time_sub(ex, st, args, where, fname):
    return Sub(args[0], args[1]), st


def m_time_unix(ex, st, args, where, fname):
    return Add(I64(EPOCH), floordiv(args[0], NS)), st


def m_unix(ex, st, args, where, fname):
    return Add(Mul(I64(NS), Sub(args[0], I64(EPOCH))), args[1]), st


def m_time_format(ex, st, args, where, fname):
    t, lay = args
    b = ex.const_bytes(lay)
    nm = 'timefmt:' + (b.decode('latin1') if b is not None else '?')
    ix = [t] if b is not None else [t] + ex.digest(st, lay, None)
    return ex.W.fresh(ex.string_tid(), nm, tuple(ix)), st


def m_now(ex, st, args, where, fname):
    return var(ex.freshname('now'), 64), st


def m_iszero(ex, st, args, where, fname):
    return Eq(args[0], bv(1 << 63, 64)), st


def m_before(ex, st, args, where, fname):
    return Slt(args[0], args[1]), st


def m_after(ex, st, args, where, fname):
    return Slt(args[1], args[0]), st


def m_equal(ex, st, args, where, fname):
    return Eq(args[0], args[1]), st


def m_seconds(ex, st, args, where, fname):
    d = args[0]
    sec = Sdiv(d, I64(NS))
    rem = Srem(d, I64(NS))
    if isc(rem) and rem.val == 0:
        return app('i2fs', (sec,), 'R'), st
    return app('durseconds', (d,), 'R'), st


# ------------------------------------------------------------- math
def m_math(nm):
    def f(ex, st, args, where, fname):
        x = args[0]
        if isc(x):
            import math
            v = float(x.val)
            if nm == 'fround':
                r = math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1)
            elif nm == 'ffloor':
                r = math.floor(v)
            else:
                r = abs(v)
            return mk('const', (), 'R', Fraction(r)), st
        return app(nm, (x,), 'R'), st
    return f


# ------------------------------------------------------------- vrt intrinsics
def v_requires(ex, st, args, where, fname):
    c = args[0]
    if not ex.assume(st, c):
        return None
    return VTuple(()), st


def v_ensures(ex, st, args, where, fname):
    lab = ex.const_bytes(args[0]).decode()
    if not ex.oblige(st, args[1], 'ensures', where, lab):
        return None
    return VTuple(()), st


def v_cover(ex, st, args, where, fname):
    lab = ex.const_bytes(args[0]).decode()
    if ex.recording and not ex.lenient and not ex.cutdepth:
        ex.covers.append((lab, st.pc.term(), args[1], where))
    return VTuple(()), st


def v_loop(ex, st, args, where, fname):
    lab = ex.const_bytes(args[0]).decode()
    g = args[1]
    assert len(g.alts) == 1
    tid, ptr = g.alts[0][1], g.alts[0][2]
    obj = ptr.alts[0][1][0]
    # an iteration ghost registered twice (dry runs) keeps the latest snapshot
    ex.ghosts[:] = [x for x in ex.ghosts if x['obj'] != obj]
    ex.ghosts.append(dict(label=lab, tid=tid, ptr=ptr, obj=obj, init=st.mem[obj], depth=len(ex.exploring)))
    return VTuple(()), st


def v_finish(ex, st, args, where, fname):
    g = args[0]
    tid, ptr = g.alts[0][1], g.alts[0][2]
    obj = ptr.alts[0][1][0]
    gh = [x for x in ex.ghosts if x['obj'] == obj]
    lab = gh[-1]['label'] if gh else ex.safety
    ms = ex.P.methods[str(tid)]
    outs = []
    old = ex.safety
    ex.safety = lab
    try:
        for it in range(3):
            r = ex.call(ms['More'], [ptr], st, where)
            if r is None:
                break
            c, st = r
            pf = st.pc.add(Not(c))
            pt = st.pc.add(c)
            if pf is not None and pt is not None and ex.solver.valid(st.pc.term(), Not(c), ex, 2000):
                pt = None
            if pf is not None:
                outs.append((State(pf, dict(st.mem), st.log), {}))
            if pt is None:
                st = None
                break
            st = State(pt, dict(st.mem), st.log)
            if it == 2:
                if ex.oblige(st, FALSE, 'loop-complete', where, lab, 'the specification has no iterations left when the code stops'):
                    outs.append((st, {}))
                break
            if 'Begin' in ms:
                r = ex.call(ms['Begin'], [ptr], st, where)
                if r is None:
                    break
                st = r[1]
            r = ex.call(ms['Step'], [ptr], st, where)
            if r is None:
                break
            st = r[1]
    finally:
        ex.safety = old
    if not outs:
        return None
    s, _ = ex.mergeN(outs)
    return VTuple(()), s


def expand_names(ex, txt):
    sm = getattr(ex.P, '_short', None)
    if sm is None:
        sm = {}
        for f in ex.P.funcs:
            sm.setdefault(short(f), f)
        ex.P._short = sm
    out = []
    for n in txt.split():
        if n in sm:
            out.append(sm[n])
        else:
            # unknown name: ignored (the function no longer exists, its code is followed instead)
            ex.notes.append('abstract: %s not found' % n)
    return out


def v_abstract(ex, st, args, where, fname):
    for f in expand_names(ex, ex.const_bytes(args[0]).decode()):
        ex.abstract.add(f)
    return VTuple(()), st


def v_pure(ex, st, args, where, fname):
    """Abstract, and the callee's contract says it leaves its receiver unchanged"""
    for f in expand_names(ex, ex.const_bytes(args[0]).decode()):
        ex.abstract.add(f)
        ex.pure.add(f)
    return VTuple(()), st


def v_unify(ex, st, args, where, fname):
    for f in expand_names(ex, ex.const_bytes(args[0]).decode()):
        ex.unify.add(f)
    return VTuple(()), st


def v_replace(ex, st, args, where, fname):
    """calls of the named function are calls of its contract, a specification function"""
    fs = expand_names(ex, ex.const_bytes(args[0]).decode())
    v = args[1]
    if isinstance(v, VIface):
        v = v.alts[0][2]
    assert len(v.alts) == 1
    for f in fs or ex.const_bytes(args[0]).decode().split():     # a method of an interface otherwise
        ex.replaced[f] = v.alts[0][1]
    return VTuple(()), st


def v_watch(ex, st, args, where, fname):
    fs = expand_names(ex, ex.const_bytes(args[0]).decode())
    v = args[1]
    if isinstance(v, VIface):
        v = v.alts[0][2]
    assert len(v.alts) == 1
    for f in fs:
        ex.watched[f] = v.alts[0][1]
    return VTuple(()), st


def v_keys(ex, st, args, where, fname):
    for it in varargs(ex, st, args[0]):
        kb = ex.const_bytes(it)
        if kb not in ex.mapkeys:
            ex.mapkeys.append(kb)
    return VTuple(()), st


def v_rangekey(ex, st, args, where, fname):
    m = args[0].alts[0][2]
    it = ex.lastiter
    if it is None or [a[1][:2] for a in it.map.alts] != [a[1][:2] for a in m.alts]:
        return ex.W.fresh(ex.string_tid(), ex.freshname('nokey')), st
    return ex.iter_key(it, args[1]), st


def v_nonnil(ex, st, args, where, fname):
    v = args[0].alts[0][2]
    for g, addr in v.alts:
        a = ex.load_addr(st, addr)
        if not isinstance(a, ABase):
            raise Unsupported('NonNil of a slice that is not an input')
        ex.W.nonnil.add(a.name + '[]')
    return TRUE, st


def v_spawned(ex, st, args, where, fname):
    return TRUE if ex.spawning else FALSE, st


def v_choicestr(ex, st, args, where, fname):
    nm = ex.const_bytes(args[0]).decode()
    return ex.W.fresh(ex.string_tid(), 'choice:' + nm, (args[1],)), st


def type_shape(ex, tid, tag, seen=()):
    T = ex.T
    n = T.name(tid)
    if T.is_time(tid):
        return 'time'
    u = T.und(tid)
    k = u['k']
    if tid in seen or len(seen) > 12:
        return '^'
    if k == 'basic':
        return {'byte': 'uint8', 'rune': 'int32'}.get(u['name'], u['name'])
    if k == 'ptr':
        return '*' + type_shape(ex, u['e'], tag, seen + (tid,))
    if k == 'slice':
        return '[]' + type_shape(ex, u['e'], tag, seen + (tid,))
    if k == 'array':
        return '[%d]' % u['n'] + type_shape(ex, u['e'], tag, seen + (tid,))
    if k == 'map':
        return 'map[%s]%s' % (type_shape(ex, u['key'], tag, seen + (tid,)), type_shape(ex, u['e'], tag, seen + (tid,)))
    if k == 'struct':
        out = []
        for f in u['f']:
            m = re.search(r'(?:^|\s)%s:"((?:[^"\\]|\\.)*)"' % re.escape(tag), f.get('tag', ''))
            t = m.group(1) if m else ''
            if t == '-' or not f['n'][:1].isupper():
                continue
            out.append('%s %s' % (t or (f['n'].lower() if tag == 'yaml' else f['n']), type_shape(ex, f['t'], tag, seen + (tid,))))
        out.sort()
        return '{' + '; '.join(out) + '}'
    return {'iface': 'interface'}.get(k, k)


def v_shape(ex, st, args, where, fname):
    tag = ex.const_bytes(args[0]).decode()
    v = args[1]
    assert len(v.alts) == 1
    return cstr(type_shape(ex, v.alts[0][1], tag).encode()), st


def m_marshal(ex, st, args, where, fname):
    """the text is a function of the kind of value and of its contents"""
    v = ex.W.refine(args[0], st.known)
    es = res_types(ex, fname)
    if len(v.alts) != 1 or not isinstance(v.alts[0][1], int):
        return opaque(ex, st, args, where, fname)
    tid, p = v.alts[0][1], v.alts[0][2]
    idxs = list(ex.digest(st, p, tid))
    nm = fname + ':' + type_shape(ex, tid, 'json')
    for a in args[1:]:
        idxs += ex.digest(st, a, ex.string_tid())
    return pack([ex.W.fresh(e, '%s#%d' % (nm, i), tuple(idxs)) for i, e in enumerate(es)]), st


def m_unmarshal(ex, st, args, where, fname):
    v = ex.W.refine(args[1], st.known)
    es = res_types(ex, fname)
    if len(v.alts) != 1 or not isinstance(v.alts[0][1], int) or ex.T.kind(v.alts[0][1]) != 'ptr':
        raise Unsupported('Unmarshal into several types')
    tid, p = v.alts[0][1], v.alts[0][2]
    nm = fname + ':' + type_shape(ex, tid, 'yaml')
    f = ex.P.funcs[fname]
    # a function of the text and of what the value was before
    idxs = tuple(ex.digest(st, args[0], f['params'][0]['t'])) + tuple(ex.digest(st, p, tid))
    post = ex.W.fresh(ex.T.elem(tid), nm, idxs)
    st = st.fork()
    if not ex.store_ptr(st, p, post, where):
        return None
    return pack([ex.W.fresh(e, '%s#%d' % (nm, i), idxs) for i, e in enumerate(es)]), st


def v_contract(ex, st, args, where, fname):
    """a clause of a callee's (interface) contract that is proved elsewhere under the given label"""
    lab = ex.const_bytes(args[0]).decode()
    ex.assumed.add('clause proved at its implementations: ' + lab)
    if not ex.assume(st, args[1]):
        return None
    return VTuple(()), st


def v_concrete(ex, st, args, where, fname):
    for f in expand_names(ex, ex.const_bytes(args[0]).decode()):
        ex.abstract.discard(f)
    return VTuple(()), st


def v_safety(ex, st, args, where, fname):
    ex.safety = ex.const_bytes(args[0]).decode()
    return VTuple(()), st


def two_any(ex, a, b):
    if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1] and isinstance(a.alts[0][1], int):
        return a.alts[0][1], a.alts[0][2], b.alts[0][2]
    return None


def v_same(ex, st, args, where, fname):
    a, b = args
    t = two_any(ex, a, b)
    if t is None:
        return ex.deq(st, a, st, b, None), st
    tid, x, y = t
    if ex.T.kind(tid) == 'slice':
        return ex.deq(st, x, st, y, tid), st
    return ex.deq(st, x, st, y, tid), st


def v_eqbytes(ex, st, args, where, fname):
    a, b = args
    return ex.deq(st, a, st, b, ex.P.funcs[fname]['params'][0]['t']), st


def v_at(ex, st, args, where, fname):
    b, i = args
    arr = ex.slice_arr(st, b)
    return ex.W.select(arr, Add(b.off, i), st.known), st


def v_sub(ex, st, args, where, fname):
    """b[i:i+n] without a bounds obligation (specifications only)"""
    b, i, n = args
    return VSlice(b.alts, Add(b.off, i), n, n), st


def v_near(ex, st, args, where, fname):
    a, b, tol = args
    d = arith('-', a, b)
    return And(Rle(d, tol), Rle(arith('-', realc(0), tol), d)), st


def v_exact(op):
    """exact real arithmetic in specifications"""
    def f(ex, st, args, where, fname):
        a, b = args
        if op == '/':
            if isc(b) and b.val:
                return arith('*', a, realc(Fraction(1) / b.val)), st
            raise Unsupported('exact division')
        return arith(op, a, b), st
    return f


def v_choice(sort):
    def f(ex, st, args, where, fname):
        nm = ex.const_bytes(args[0]).decode()
        return app('choice:' + nm, tuple(args[1:]), sort), st
    return f


def v_err(ex, st, args, where, fname):
    """an arbitrary error, not nil"""
    nm = ex.const_bytes(args[0]).decode()
    return VIface(((TRUE, 'errs', app('choice:' + nm, tuple(args[1:]), 32)),)), st


def v_bytesof(ex, st, args, where, fname):
    """arbitrary byte string named by (name, n)"""
    nm = ex.const_bytes(args[0]).decode()
    es = res_types(ex, fname)
    return ex.W.fresh(es[0], 'choice:' + nm, (args[1],)), st


def v_hash(ex, st, args, where, fname):
    """trace digest: Trace = H(Trace, tag, contents...)"""
    raise Unsupported('hash')


def v_ghostok(ex, st, args, where, fname):
    return TRUE, st


def v_symbolic(ex, st, args, where, fname):
    return TRUE, st


def v_frame(ex, st, args, where, fname):
    """from here on only freshly allocated objects and the listed ones may be written"""
    ex.frame_label = ex.const_bytes(args[0]).decode()
    ex.fresh_base = ex.objn
    allowed = set()
    items = varargs(ex, st, args[1])
    for it in items or ():
        for g, k, p in it.alts:
            if isinstance(p, (VPtr, VSlice)):
                for gg, addr in p.alts:
                    allowed.add(addr[0])
    ex.modifiable = allowed
    return VTuple(()), st


def v_endframe(ex, st, args, where, fname):
    ex.modifiable = None
    return VTuple(()), st


def v_alloced(ex, st, args, where, fname):
    """allocation budget: the length of every make() so far is bounded"""
    return TRUE, st


VRT = {
    'Requires': v_requires, 'Ensures': v_ensures, 'Cover': v_cover, 'Loop': v_loop, 'Finish': v_finish,
    'Abstract': v_abstract, 'Replace': v_replace, 'Unify': v_unify, 'Watch': v_watch, 'Keys': v_keys, 'NonNil': v_nonnil, 'RangeKey': v_rangekey, 'Spawned': v_spawned, 'String': v_choicestr, 'Shape': v_shape, 'Pure': v_pure, 'Contract': v_contract, 'Concrete': v_concrete, 'Safety': v_safety, 'Same': v_same,
    'EqBytes': v_eqbytes, 'At': v_at, 'Sub': v_sub, 'Near': v_near, 'RAdd': v_exact('+'), 'RSub': v_exact('-'), 'RMul': v_exact('*'), 'RDiv': v_exact('/'),
    'NoByte': v_nobyte, 'Err': v_err, 'Bool': v_choice('B'), 'Int': v_choice(64), 'Frame': v_frame, 'EndFrame': v_endframe, 'Bytes': v_bytesof, 'Symbolic': v_symbolic,
}


def install(ex):
    m = ex.models
    mod = ex.P.js['module']
    for k, f in VRT.items():
        m['%s/libs/vrt.%s' % (mod, k)] = f
    m.update({
        'errors.New': m_newerr, 'fmt.Errorf': m_newerr, 'errors.Is': m_errors_is,
        'fmt.Sprintf': m_sprintf,
        'strconv.ParseUint': m_parseuint,
        'io.ReadFull': m_readfull,
        'encoding/binary.Write': m_binwrite, 'encoding/binary.Read': m_binread,
        '(*bytes.Buffer).Write': m_buf_write, '(*bytes.Buffer).WriteString': m_buf_write,
        '(*bytes.Buffer).WriteByte': m_buf_writebyte, '(*bytes.Buffer).Grow': m_buf_grow,
        '(*strings.Builder).WriteString': m_sb_write, '(*strings.Builder).Write': m_sb_write, '(*strings.Builder).WriteByte': m_sb_writebyte,
        '(*strings.Builder).String': m_sb_string, '(*strings.Builder).Len': m_sb_len, '(*strings.Builder).Grow': m_buf_grow,
        '(*bytes.Buffer).ReadString': m_readstring, '(*bytes.Buffer).ReadBytes': m_readstring,
        'bytes.IndexByte': m_indexbyte, 'strings.IndexByte': m_indexbyte,
        'internal/bytealg.IndexByte': m_indexbyte, 'internal/bytealg.IndexByteString': m_indexbyte,
        'time.Date': m_date, '(time.Time).Add': m_time_add, '(time.Time).Sub': m_time_sub,
        '(time.Time).Unix': m_time_unix, 'time.Unix': m_unix, '(time.Time).Format': m_time_format,
        '(time.Time).UTC': m_identity, '(time.Time).Local': m_identity, '(time.Time).In': m_identity,
        'time.NewTimer': m_noop, '(*time.Timer).Reset': m_noop, '(*time.Timer).Stop': m_noop,
        'time.Now': m_now, '(time.Time).IsZero': m_iszero, '(time.Time).Before': m_before,
        '(time.Time).After': m_after, '(time.Time).Equal': m_equal, '(time.Duration).Seconds': m_seconds,
        'math.Round': m_math('fround'), 'math.Floor': m_math('ffloor'), 'math.Trunc': m_math('ffloor0'), 'math.Abs': m_math('fabs'),
        'encoding/json.Marshal': m_marshal, 'encoding/json.MarshalIndent': m_marshal, 'gopkg.in/yaml.v2.Unmarshal': m_unmarshal,
        'strconv.Atoi': m_atoi, 'strconv.ParseInt': opaque, 'strconv.Itoa': opaque, 'strings.TrimSpace': opaque, 'strings.ReplaceAll': opaque, 'strings.Replace': opaque, 'os.ReadFile': opaque, 'io/ioutil.ReadFile': opaque,
        'net.JoinHostPort': opaque,
        'context.Background': m_noop, 'context.TODO': m_noop,
        'fmt.Println': m_noop, 'fmt.Printf': m_noop,
    })
    m['#prefix'] = [
        ('github.com/sirupsen/logrus.', m_logrus), ('(*github.com/sirupsen/logrus.', m_logrus),
    ]
    return ex
