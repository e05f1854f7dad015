"""Assumed contracts for the C library (trusted base)."""
import z3
from .mem import *
from .ir import INT, PTR
MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

def zx(t, w=64): return t if t.size() == w else z3.ZeroExt(w - t.size(), t)

def intrinsic(eng, st, name, a):
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        eng.copybytes(st, a[0], a[1], Lin.of(zx(a[2])), move='memmove' in name); return [(st, None)]
    if name.startswith('llvm.memset'):
        eng.setbytes(st, a[0], a[1], Lin.of(zx(a[2]))); return [(st, None)]
    if name.startswith('llvm.va_start'):
        return va_start(eng, st, a)
    if name.startswith('llvm.va_end'): return [(st, None)]
    if name.startswith('llvm.va_copy'):
        eng.copybytes(st, a[0], a[1], Lin(24)); return [(st, None)]
    if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore')): return [(st, None)]
    if name.startswith('llvm.bswap'):
        n = a[0].size() // 8
        return [(st, simp(z3.Concat(*[z3.Extract(8*i+7, 8*i, a[0]) for i in range(n)])))]
    if name.startswith('llvm.umin'): return [(st, z3.If(z3.ULT(a[0], a[1]), a[0], a[1]))]
    if name.startswith('llvm.umax'): return [(st, z3.If(z3.UGT(a[0], a[1]), a[0], a[1]))]
    if name.startswith('llvm.smin'): return [(st, z3.If(a[0] < a[1], a[0], a[1]))]
    if name.startswith('llvm.smax'): return [(st, z3.If(a[0] > a[1], a[0], a[1]))]
    if name.startswith('llvm.abs'): return [(st, z3.If(a[0] < 0, -a[0], a[0]))]
    if name.startswith('llvm.usub.sat'): return [(st, z3.If(z3.ULT(a[0], a[1]), BV(0, a[0].size()), a[0] - a[1]))]
    if name.startswith('llvm.fshl'):
        w = a[0].size(); s = z3.URem(a[2], BV(w, w)); return [(st, simp(z3.If(s == 0, a[0], (a[0] << s) | z3.LShR(a[1], BV(w, w) - s))))]
    if name.startswith(('llvm.uadd.with.overflow', 'llvm.umul.with.overflow', 'llvm.usub.with.overflow')):
        w = a[0].size()
        if 'uadd' in name: r = a[0] + a[1]; o = z3.Not(z3.BVAddNoOverflow(a[0], a[1], False))
        elif 'umul' in name: r = a[0] * a[1]; o = z3.Not(z3.BVMulNoOverflow(a[0], a[1], False))
        else: r = a[0] - a[1]; o = z3.ULT(a[0], a[1])
        return [(st, Agg([r, o]))]
    h = eng.opt.get('intrinsics', {}).get(name)
    if h: return h(eng, st, a)
    raise Unsupported('intrinsic ' + name)

# ------------------------------------------------------------------ variadic arguments (x86-64 SysV va_list)
def va_start(eng, st, a):
    """all variadic arguments are presented through the overflow area (gp_offset/fp_offset exhausted)"""
    fr = eng._fr; va = fr.va
    rid = eng.newregion(st, 'varargs', Lin(8 * max(1, len(va))), 'stack', 'varargs')
    rs = st.mem[rid]
    s = Seg(0, 8 * max(1, len(va)), {}, None, {})
    for i, v in enumerate(va):
        s.tys[8 * i] = PTR if isinstance(v, (Ptr, FnPtr)) else INT(64)
        s.scal[8 * i] = v if isinstance(v, (Ptr, FnPtr)) else (eng.tobits(v) if isinstance(v, FV) else (v if v.size() == 64 else simp(z3.ZeroExt(64 - v.size(), v))))
    rs.segs = [s]
    p = a[0]
    eng.store(st, p, BV(48, 32), INT(32)); eng.store(st, p.add(Lin(4)), BV(304, 32), INT(32))
    eng.store(st, p.add(Lin(8)), Ptr(rid, Lin(0)), PTR); eng.store(st, p.add(Lin(16)), NULL, PTR)
    return [(st, None)]

# ------------------------------------------------------------------ allocation
def fork(eng, st, c):
    """states where c holds / does not hold (feasible ones)"""
    c = simp(c); out = []
    if z3.is_true(c): return [(st, True)]
    if z3.is_false(c): return [(st, False)]
    a, b = eng.feasible(st, c), eng.feasible(st, z3.Not(c))
    if a and b:
        s2 = st.clone(); s2.pc.append(simp(z3.Not(c))); st.pc.append(c); return [(st, True), (s2, False)]
    if a: st.pc.append(c); return [(st, True)]
    st.pc.append(simp(z3.Not(c))); return [(st, False)]

MAXOBJ = (1 << 63) - 1
def alloc(eng, st, size, zero, label=None):
    out = []
    fail = st.clone()
    if eng.opt['alloc_fail']:
        fail.trace.append(('alloc', None, size)); out.append((fail, NULL))
    # a successful allocation is not larger than PTRDIFF_MAX
    ok = z3.ULE(size, BV(MAXOBJ))
    if eng.feasible(st, ok):
        eng.addhyp(st, ok)
        rid = eng.newregion(st, label or eng.opt.get('alloc_label', 'heap'), Lin.of(size), 'heap', label or eng.opt.get('alloc_label', 'heap'), None, zero)
        if zero: st.mem[rid].zero = True
        st.trace.append(('alloc', rid, size)); out.append((st, Ptr(rid, Lin(0))))
    return out

@model('malloc')
def m_malloc(eng, st, a): return alloc(eng, st, zx(a[0]), False)
@model('calloc')
def m_calloc(eng, st, a):
    n, s = zx(a[0]), zx(a[1])
    ov = z3.Not(z3.BVMulNoOverflow(n, s, False)) if not (isnum(n) and isnum(s)) else z3.BoolVal(n.as_long() * s.as_long() > MAXOBJ)
    if isnum(n) and not isnum(s): n, s = s, n
    if isnum(s): ov = z3.UGT(n, BV(MAXOBJ // s.as_long())) if s.as_long() else z3.BoolVal(False)
    out = []
    for s2, t in fork(eng, st, ov):
        if t: s2.trace.append(('alloc', None, n)); out.append((s2, NULL))
        else: out += alloc(eng, s2, simp(n * s), True)
    return out
def dofree(eng, st, p, what='free'):
    """release a heap block: must be NULL or the start of a live heap region"""
    p = eng.resolve(st, p)
    if p.r is None and p.o.isconst() and p.o.c == 0: return
    if p.r is None:
        eng.oblige(st, eng.addr(p) == BV(0), 'memory', '%s of a pointer that is not a live block' % what); return
    rs = st.mem[p.r]
    if rs.kind != 'heap': eng.oblige(st, z3.BoolVal(False), 'memory', '%s of memory that was not allocated (%s)' % (what, rs.label)); raise Dead()
    if not rs.alive: eng.oblige(st, z3.BoolVal(False), 'memory', 'double %s of %s' % (what, rs.label)); raise Dead()
    eng.oblige(st, p.o.term() == BV(0), 'memory', '%s at the start of the block %s' % (what, rs.label))
    rs = rs.clone(); rs.alive = False; st.mem[p.r] = rs
@model('free')
def m_free(eng, st, a):
    p = a[0]
    dofree(eng, st, p); 
    if isinstance(p, Ptr): st.trace.append(('free', eng.resolve(st, p).r))
    return [(st, None)]
@model('realloc')
def m_realloc(eng, st, a):
    p = eng.resolve(st, a[0]); size = zx(a[1])
    if p.r is None and p.o.isconst() and p.o.c == 0: return alloc(eng, st, size, False)
    if p.r is None: raise Unsupported('realloc of unknown pointer')
    rs = st.mem[p.r]
    # validity of the old block is an obligation in every outcome
    t = st.clone(); dofree(eng, t, p, 'realloc')
    out = []
    # size zero: implementation-defined; must not be requested
    eng.oblige(st, size != BV(0), 'memory', 'realloc size is not zero')
    if eng.opt['alloc_fail']:
        f = st.clone(); f.trace.append(('alloc', None, size)); out.append((f, NULL))
    ok = z3.ULE(size, BV(MAXOBJ))
    if eng.feasible(st, ok):
        eng.addhyp(st, ok)
        rid = eng.newregion(st, rs.label, Lin.of(size), 'heap', rs.label)
        nr = st.mem[rid]
        if rs.segs is not None:
            segs = []
            for s in rs.segs:
                if s.scal is not None: segs.append(s.clone()); continue
                n = Seg(s.start, s.stride, dict(s.tys), {}, None)
                # elements within both blocks keep their value
                # byte count kept = min(old,new); whole elements only
                for o, arr in s.arrs.items():
                    oldn = z3.UDiv(rs.size.term() - BV(s.start), BV(s.stride)) if s.stride > 1 else rs.size.term() - BV(s.start)
                    newn = z3.UDiv(size - BV(s.start), BV(s.stride)) if s.stride > 1 else size - BV(s.start)
                    q = rs.size.add(Lin(-s.start)).divmod(s.stride)
                    if q is not None and q[1] == 0: oldn = q[0].term()
                    q = Lin.of(size).add(Lin(-s.start)).divmod(s.stride)
                    if q is not None and q[1] == 0: newn = q[0].term()
                    cnt = z3.If(z3.ULT(oldn, newn), oldn, newn)
                    n.arrs[o] = Arr.base(arr.label, arr.w).copy(BV(0), cnt, arr, BV(0))
                segs.append(n)
            nr.segs = segs; nr.nul = rs.nul
            for k, v in list(st.ghost.items()):
                if isinstance(k, tuple) and k[0] == 'count' and k[1] == p.r: st.ghost[('count', rid) + k[2:]] = v
        o = rs.clone(); o.alive = False; st.mem[p.r] = o
        st.trace.append(('realloc', p.r, rid)); out.append((st, Ptr(rid, Lin(0))))
    return out

@model('memcpy', 'memmove')
def m_memcpy(eng, st, a):
    eng.copybytes(st, a[0], a[1], Lin.of(zx(a[2])), True); return [(st, a[0])]
@model('memset')
def m_memset(eng, st, a):
    eng.setbytes(st, a[0], simp(z3.Extract(7, 0, a[1])), Lin.of(zx(a[2]))); return [(st, a[0])]

@model('__assert_fail', 'abort')
def m_abort(eng, st, a):
    eng.oblige(st, z3.BoolVal(False), 'assert', 'assertion holds'); raise Dead()

# ------------------------------------------------------------------ strings
from .core import All
def bytearr(eng, st, p):
    """(array, index of p) for a byte region"""
    rs = st.mem[p.r]
    if rs.segs is None: eng.settype(st, p.r, INT(8)); rs = st.mem[p.r]
    si, idx, fo = eng.locate(st, rs, p, 1)
    s = rs.segs[si]
    if idx is None or s.stride != 1: raise Unsupported('string operation on non byte memory')
    return s.arrs[0], idx, si
def strlen_term(eng, st, p, what='strlen'):
    """length of the NUL terminated string at p; obligation: a terminator exists inside the object"""
    p = eng.resolve(st, p)
    if p.r is None:
        eng.oblige(st, z3.BoolVal(False), 'memory', '%s of null or unknown pointer' % what); raise Dead()
    rs = st.mem[p.r]
    if not rs.alive:
        eng.oblige(st, z3.BoolVal(False), 'memory', '%s of freed memory' % what); raise Dead()
    arr, idx, si = bytearr(eng, st, p); rs = st.mem[p.r]
    segstart = rs.segs[si].start
    key = ('strlen', p.r, arr.id, idx.get_id())
    c = st.ghost.get(key)
    if c is not None: return c
    if arr.k == 'table' and isnum(idx):
        t = arr.a[0]; i = idx.as_long(); n = 0
        while i + n < len(t) and t[i + n] != 0: n += 1
        if i + n < len(t): return BV(n)
    L = rs.segs[si].tys.get('__len')
    lim = BV(segstart + L) if L else rs.size.term()
    n = fresh('strlen')
    # existence of a terminator: some registered witness works
    ws = [w for (sj, w) in rs.nul if sj == si]
    inb = lambda w: z3.And(z3.ULE(idx, w), z3.ULT(w, lim - BV(segstart)), z3.ULE(BV(segstart), lim))
    g = z3.Or(*[z3.And(inb(w), arr.read(w) == BV(0, 8)) for w in ws]) if ws else z3.BoolVal(False)
    for w in ws: st.hints.append((arr.label, w))
    eng.oblige(st, z3.And(z3.ULT(p.o.term(), rs.size.term()), g) , 'memory', '%s: string is terminated inside its object' % what)
    eng.addhyp(st, z3.ULT(n, lim - BV(segstart) - idx)); eng.addhyp(st, arr.read(idx + n) == BV(0, 8))
    eng.addhyp(st, z3.ULE(idx + n, lim - BV(segstart)))
    eng.addhyp(st, z3.UGE(idx + n, idx))
    for w in ws: eng.addhyp(st, z3.Implies(z3.And(inb(w), arr.read(w) == BV(0, 8)), z3.ULE(n, w - idx)))
    def body(q, arr=arr, idx=idx, n=n): return z3.Implies(z3.ULT(q - idx, n), arr.read(q) != BV(0, 8))
    eng.addhyp(st, All((arr.label,), body, 'strlen'))
    st.hints.append((arr.label, simp(idx + n)))
    rs2 = st.mem[p.r].clone(); rs2.nul = (rs2.nul + ((si, simp(idx + n)),))[-8:]; st.mem[p.r] = rs2
    st.ghost[key] = n
    return n
@model('strlen')
def m_strlen(eng, st, a): return [(st, strlen_term(eng, st, a[0]))]

@model('__errno_location')
def m_errno(eng, st, a):
    rid = 'errno'
    if rid not in st.mem:
        st.mem[rid] = RegState(Lin(4), 'global', 'errno', [eng.mkseg(INT(32), 0, True, 'errno')])
    return [(st, Ptr(rid, Lin(0)))]

# ------------------------------------------------------------------ formatted output
INTMAX = (1 << 31) - 1
def va_values(eng, st, ap):
    """values behind a va_list set up by va_start"""
    q = eng.load(st, ap.add(Lin(8)), PTR); q = eng.resolve(st, q)
    if q.r is None or not q.o.isconst(): raise Unsupported('va_list')
    rs = st.mem[q.r]; n = rs.size.c // 8
    return [rs.segs[0].scal.get(8 * i) for i in range(q.o.c // 8, n)]
def samev(eng, a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        x, y = eng.addr(a) if isinstance(a, (Ptr, FnPtr)) else a, eng.addr(b) if isinstance(b, (Ptr, FnPtr)) else b
        return simp(zx(x)).eq(simp(zx(y)))
    return simp(zx(a)).eq(simp(zx(b)))
def format_out(eng, st, dst, n, fmt, vals, what='vsnprintf'):
    """n: size limit (term) or None; output text is the one announced by the contract (length, bytes)"""
    spec = eng.opt.get('vsn')
    if spec is None: raise Unsupported('formatted output')
    L, arr, efmt, eargs = spec
    same = isinstance(fmt, Ptr) and samev(eng, fmt, efmt) and len(vals) == len(eargs) and all(samev(eng, a, b) for a, b in zip(vals, eargs))
    eng.oblige(st, z3.BoolVal(bool(same)), 'post', '%s: the format and arguments given by the caller are passed on' % what)
    out = []
    if eng.opt.get('vsn_fail', True):
        neg = st.clone(); r = fresh('vsnrc', 32); eng.addhyp(neg, r < 0); neg.trace.append(('vsn', 0)); 
        clob = neg
        # a failing call may have written anything into the destination
        k = fresh('vsnw'); eng.addhyp(neg, z3.ULE(k, n))
        if n is not None:
            for s2, t in fork(eng, neg, n == BV(0)):
                if not t: wr(eng, s2, dst, n, Arr.base('vsnjunk', 8), n, None)
                out.append((s2, r))
    st.trace.append(('vsn', 1)); rc = simp(z3.Extract(31, 0, L))
    for s2, t in fork(eng, st, n == BV(0)):
        if not t:
            cut = simp(z3.If(z3.ULT(L, n), L, n - 1))
            wr(eng, s2, dst, cut, arr, simp(cut + 1), cut)
        out.append((s2, rc))
    return out
def wr(eng, st, dst, cnt, arr, total, nulat):
    dst = eng.resolve(st, dst)
    rs = eng.bounds(st, dst, Lin.of(total), 'formatted output'); 
    if rs.const: eng.oblige(st, z3.BoolVal(False), 'memory', 'write to constant object'); raise Dead()
    if st.mem[dst.r].segs is None: eng.settype(st, dst.r, INT(8))
    rs = st.mem[dst.r].clone(); st.mem[dst.r] = rs
    si, idx, fo = eng.locate(st, rs, dst, 1); s = rs.segs[si]
    if idx is None or s.stride != 1: raise Unsupported('formatted output into non byte memory')
    a = s.arrs[0].copy(idx, cnt, arr, BV(0))
    if nulat is not None: a = a.store(simp(idx + nulat), BV(0, 8)); rs.nul = (rs.nul + ((si, simp(idx + nulat)),))[-6:]
    s.arrs[0] = a; eng.log((dst.r, si, 0)); st.hints.append((a.label, idx))
@model('vsnprintf')
def m_vsnprintf(eng, st, a): return format_out(eng, st, a[0], zx(a[1]), a[2], va_values(eng, st, a[3]))
@model('snprintf')
def m_snprintf(eng, st, a): return format_out(eng, st, a[0], zx(a[1]), a[2], a[3:], 'snprintf')
