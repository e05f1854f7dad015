"""Contracts for the macro containers array/sc_array.h and queue/sc_queue.h, instantiated by native/wrap_*.c"""
import z3
from vf.contract import contract, Obj
from vf.mem import *
from vf.core import All, simp
from vf.ir import INT, PTR, DOUBLE
TYPES = dict(int=INT(32), ptr=PTR, double=DOUBLE, rec='vf_rec', uchar=INT(8)); TYPES['64'] = INT(64)
AOPT = dict(replay=False, search='array', bbfirst=3000, assumptions=['qsort sorts the block it is given with the given comparison, and does nothing for zero elements even when there is no block (assumed contract of the C library)', 'indices passed by the caller are below the size (documented precondition, asserted by the macros)', 'allocations of 2^61 bytes or more fail'])
QOPT = dict(replay=False, search='queue', bbfirst=3000, cand_ms=20000, assumptions=['get, peek and delete are called on non-empty queues, indices are below the size (documented precondition)', 'allocations of 2^61 bytes or more fail'])

class El:
    """element type"""
    def __init__(self, c, nm):
        self.c, self.nm = c, nm; ty = TYPES[nm]; self.ty = c.mod.struct(ty) if isinstance(ty, str) else ty
        self.isz = c.mod.size(self.ty); self.fos = [o for o, t in c.mod.flat(self.ty)] if isinstance(ty, str) else [0]
        c.eng.opt['ontype'] = None
    def arrs(self, st, r):
        rs = st.mem[r]
        if rs.segs is None: q = self.c.eng.quiet; self.c.eng.quiet = 1; self.c.eng.settype(st, r, self.ty); self.c.eng.quiet = q; rs = st.mem[r]
        s = rs.segs[0]
        return [s.arrs[o] for o in self.fos]
    def reads(self, st, r, i):
        rs = st.mem[r]
        if rs.segs is not None and rs.segs[0].scal is not None:
            t = dict(self.c.mod.flat(self.ty)) if self.ty.k == 'struct' else {0: self.ty}
            return [self.c.eng.tobits(self.c.eng.rawload(st, st.mem[r], Ptr(r, Lin(o)), t[o])) for o in self.fos]
        return [self.c.eng.tobits(a.read(i)) for a in self.arrs(st, r)]
    def eq(self, x, y): return z3.And(*[a == b for a, b in zip(x, y)])
    def label(self, st, r): return self.arrs(st, r)[0].label
    def labels(self, *rs): return tuple(self.label(st, r) for st, r in rs)
    def value(self, name):
        """caller-owned element -> (pointer, value)"""
        p = self.c.array(name, self.ty, 1, 'ext'); return p, self.reads(self.c.st, p.r, BV(0))
def okret(c, r): return r if z3.is_bool(r) else c.eng.tobits(r) != 0
def allocfail(out): return any(x[0] in ('alloc', 'realloc') and (x[1] is None or len(x) > 2 and x[2] is None) for x in out.st.trace)
def live(st): return [r for r, rs in st.mem.items() if rs.kind == 'heap' and rs.alive]

# ------------------------------------------------------------------ array
class A:
    def __init__(self, e, st, o):
        g = lambda f: e.c.getf(st, o, f); self.e, self.st = e, st
        self.p, self.cap, self.size, self.oom = g('elems'), g('cap'), g('size'), e.c.eng.tobits(g('oom')); self.r = self.p.r
    def ok(self):
        b = z3.ULE(self.oom, 1)
        if self.r is None: return z3.And(b, self.cap == 0, self.size == 0, self.e.c.eng.addr(self.p) == 0)
        rs = self.st.mem[self.r]
        return z3.And(b, z3.BoolVal(rs.alive), self.p.o.term() == 0, z3.UGE(self.cap, 1), z3.ULE(self.cap, BV(1 << 57)), rs.size.term() == self.cap * self.e.isz, z3.ULE(self.size, self.cap))
    def at(self, i): return self.e.reads(self.st, self.r, i)
def mka(c, nm, nonempty=False):
    e = El(c, nm); kind = c.choose('array', ('block',) if nonempty else ('block', 'none')); s = 'sc_array_' + nm
    if kind == 'none': o = c.struct('a', s, dict(cap=BV(0), size=BV(0), elems=NULL, oom=c.bv('oom', 8)))
    else:
        cap = c.bv('cap'); c.assume(z3.ULE(cap, BV(1 << 57))); p = c.array('elems', e.ty, cap)
        o = c.struct('a', s, dict(cap=cap, size=c.bv('size'), elems=p, oom=c.bv('oom', 8)))
    a = A(e, c.st, o); c.assume(a.ok())
    return e, o, A(e, c.st.clone(), o)
def fin(c, out, e, o):
    h = A(e, out.st, o); c.ensure(out, 'array is well-formed', h.ok()); c.ensure(out, 'no block is lost', live(out.st) == ([h.r] if h.r else [])); return h
def prefix_same(c, out, e, h, p, n, name):
    if p.r is None: return
    if h.r is None: c.ensure(out, name, n == 0); return
    c.ensure(out, name, All((e.label(p.st, p.r),), lambda x: z3.Implies(z3.ULT(x, n), e.eq(h.at(x), p.at(x)))))
def makearr(nm, quick):
    Q = dict(AOPT) if quick else dict(AOPT, thorough_only=True); SRC = 'verif:native/wrap_array.c'
    @contract('C06', SRC, name='array_add_' + nm, **Q)
    def add(c):
        e, o, p = mka(c, nm); vp, v = e.value('value')
        for out in c.run('a_add_' + nm, [o, vp]):
            h = A(e, out.st, o)
            if c.eng.feasible(out.st, h.oom == 0): c.use(out, z3.ULE(h.cap, BV(1 << 57)))
            h = fin(c, out, e, o)
            if not c.eng.feasible(out.st, h.oom == 0):
                c.ensure(out, 'fails only for lack of memory', z3.Or(z3.BoolVal(allocfail(out)), z3.UGT(p.cap, BV(1 << 40))))
                c.ensure(out, 'failed add leaves the size', h.size == p.size); c.ensure(out, 'failed add leaves the capacity', h.cap == p.cap); prefix_same(c, out, e, h, p, p.size, 'failed add leaves the elements'); continue
            c.ensure(out, 'success is reported', h.oom == 0); c.ensure(out, 'no allocation failed', not allocfail(out)); c.ensure(out, 'one element more', h.size == p.size + 1)
            prefix_same(c, out, e, h, p, p.size, 'earlier elements kept in order'); c.ensure(out, 'the new element is last', e.eq(h.at(p.size), v))
    @contract('C06', SRC, name='array_del_' + nm, **Q)
    def dele(c):
        op = c.choose('op', ('del', 'delun', 'dellast')); e, o, p = mka(c, nm, True); i = c.bv('i')
        c.assume(z3.ULT(i, p.size)) if op != 'dellast' else c.assume(p.size != 0)
        for out in c.run('a_%s_%s' % (op, nm), [o] + ([] if op == 'dellast' else [i])):
            h = fin(c, out, e, o); c.ensure(out, 'one element less', h.size == p.size - 1); c.ensure(out, 'capacity and flag kept', z3.And(h.cap == p.cap, h.oom == p.oom))
            L = (e.label(p.st, p.r),)
            if op == 'dellast': prefix_same(c, out, e, h, p, h.size, 'other elements kept'); continue
            if op == 'del':
                c.ensure(out, 'elements before the index kept', All(L, lambda x: z3.Implies(z3.ULT(x, i), e.eq(h.at(x), p.at(x)))))
                c.ensure(out, 'elements after the index move down by one', All(L, lambda x: z3.Implies(z3.And(z3.UGE(x, i), z3.ULT(x, h.size)), e.eq(h.at(x), p.at(x + 1)))))
            else:
                c.ensure(out, 'other elements kept', All(L, lambda x: z3.Implies(z3.And(x != i, z3.ULT(x, h.size)), e.eq(h.at(x), p.at(x)))))
                c.ensure(out, 'the last element takes the place', z3.Implies(z3.ULT(i, h.size), e.eq(h.at(i), p.at(h.size))))
    @contract('C06', SRC, name='array_access_' + nm, **Q)
    def access(c):
        op = c.choose('op', ('at', 'put', 'last', 'size', 'oom')); e, o, p = mka(c, nm, op not in ('size', 'oom')); i = c.bv('i'); vp, v = e.value('value')
        if op in ('at', 'put'): c.assume(z3.ULT(i, p.size))
        if op == 'last': c.assume(p.size != 0)
        args = {'at': [o, i, vp], 'put': [o, i, vp], 'last': [o, vp], 'size': [o], 'oom': [o]}[op]
        for out in c.run('a_%s_%s' % (op, nm), args):
            h = fin(c, out, e, o); c.ensure(out, 'header kept', z3.And(h.size == p.size, h.cap == p.cap, h.oom == p.oom))
            if op == 'put':
                c.ensure(out, 'the element is replaced', e.eq(h.at(i), v)); c.ensure(out, 'others kept', All((e.label(p.st, p.r),), lambda x: z3.Implies(z3.And(x != i, z3.ULT(x, p.size)), e.eq(h.at(x), p.at(x))))); continue
            prefix_same(c, out, e, h, p, p.size, 'elements kept')
            if op in ('at', 'last'): c.ensure(out, 'the element at the position', e.eq(e.reads(out.st, vp.r, BV(0)), p.at(i if op == 'at' else p.size - 1)))
            elif op == 'size': c.ensure(out, 'number of elements', out.ret == p.size)
            else: c.ensure(out, 'flag', okret(c, out.ret) == (p.oom != 0))
    @contract('C06', SRC, name='array_misc_' + nm, **Q)
    def misc(c):
        op = c.choose('op', ('init', 'term', 'clear', 'sort'))
        if op == 'init': e = El(c, nm); o = c.struct('a', 'sc_array_' + nm)
        else: e, o, p = mka(c, nm)
        calls = []
        def qs(eng, st, a): st.trace.append(('qsort', a)); return [(st, None)]
        c.eng.models['qsort'] = qs
        for out in c.run('a_%s_%s' % (op, nm), [o]):
            h = A(e, out.st, o)
            if op in ('init', 'term'):
                c.ensure(out, 'empty array', z3.And(z3.BoolVal(h.r is None and not live(out.st)), h.ok(), h.oom == 0)); continue
            h = fin(c, out, e, o); c.ensure(out, 'capacity kept', h.cap == p.cap)
            if op == 'clear': c.ensure(out, 'no elements', z3.And(h.size == 0, h.oom == 0)); continue
            prefix_same(c, out, e, h, p, p.size, 'elements handed to the sort as they are'); c.ensure(out, 'size kept', h.size == p.size)
            q = [x[1] for x in out.st.trace if x[0] == 'qsort']
            c.ensure(out, 'sorted once', len(q) == 1)
            if len(q) == 1:
                a = q[0]; fn = a[3].name if isinstance(a[3], FnPtr) else ''
                c.ensure(out, 'the whole array is sorted with the comparison', z3.And(z3.BoolVal(isinstance(a[0], Ptr) and a[0].r == h.r and fn.lstrip('@') == 'vf_cmp_' + nm), a[0].o.term() == 0, c.eng.tobits(a[1]) == p.size, c.eng.tobits(a[2]) == e.isz))
    @contract('C06', SRC, name='array_foreach_' + nm, **Q)
    def each(c):
        e, o, p = mka(c, nm)
        iterate(c, e, o, p, 'a_foreach_' + nm, lambda i: p.at(i), p.size, lambda k, V: V.cur(k))
        # iterate() ran the function and stated the visits
def iterate(c, e, o, p, fn, elem, size, *pos):
    """each element is visited in order until the body leaves the loop"""
    eng = c.eng; G = c.st.ghost; G['n'] = BV(0); G['stop'] = z3.BoolVal(False); nm = e.nm
    def nested(f, hdr):
        g = eng.cfgs.get('@' + f) or eng.cfgs.get(f)
        return bool(g) and any(hdr in b and h != hdr for h, b in g.loops.items())
    eng.opt['unroll'] = nested; eng.opt['unrollmax'] = 6
    def visit(en, st, a):
        n = st.ghost['n']
        en.oblige(st, z3.Not(st.ghost['stop']), 'post', 'no visit after the loop was left'); en.oblige(st, z3.ULT(n, size), 'post', 'no visit beyond the elements')
        if p.r is not None: en.oblige(st, e.eq(e.reads(st, a[0].r, BV(0)), elem(n)), 'post', 'elements are visited in order')
        st.ghost['n'] = simp(n + 1); b = freshb('leave'); st.ghost['stop'] = b
        for x in ('n', 'stop'): en.log((None, 'ghost', x))
        return [(st, b)]
    eng.models['vf_visit_' + nm] = visit
    def cands(L):
        out = [('not left yet', lambda V: z3.Not(V.st.ghost['stop'])), ('visits at most the size', lambda V: z3.ULE(V.st.ghost['n'], size))]
        for k in L.vars:
            if k[0] != 'phi' or L.kind[k] != 'int' or L.width[k] != 64: continue
            if getattr(p, 'first', None) is not None: out.append(('%s is the position after the visited ones' % k[1], lambda V, k=k: V.cur(k) == (p.first + V.st.ghost['n']) & (p.cap - 1)))
            out.append(('%s counts the visits' % k[1], lambda V, k=k: V.cur(k) == V.st.ghost['n']))
            out.append(('%s is a flag' % k[1], lambda V, k=k: z3.ULE(V.cur(k), 1)))
            out.append(('%s means not left' % k[1], lambda V, k=k: (V.cur(k) == 0) == V.st.ghost['stop']))
            out.append(('%s is one' % k[1], lambda V, k=k: V.cur(k) == 1))
            out.append(('visits at most the size while %s' % k[1], lambda V, k=k: z3.Implies(V.cur(k) != 0, z3.Not(V.st.ghost['stop']))))
        return out
    eng.loop_cands.append(cands)
    eng.opt['measures'] = [lambda L: [('elements left to visit', lambda V: (size - V.st.ghost['n'], z3.If(V.st.ghost['stop'], BV(0), BV(1))))]]
    for out in c.run(fn, [o]):
        c.ensure(out, 'every element was visited, unless the body left the loop', z3.Or(out.st.ghost['stop'], out.st.ghost['n'] == size))
for nm in TYPES: makearr(nm, nm in ('int', '64', 'rec'))

# ------------------------------------------------------------------ queue
class Qs:
    def __init__(self, e, st, o):
        g = lambda f: e.c.getf(st, o, f); self.e, self.st = e, st
        self.p, self.cap, self.first, self.last, self.oom = g('elems'), g('cap'), g('first'), g('last'), e.c.eng.tobits(g('oom')); self.r = self.p.r
        self.size = simp((self.last - self.first) & (self.cap - 1))
    def ok(self):
        b = z3.ULE(self.oom, 1)
        if self.r is None: return z3.And(b, z3.Or(z3.And(self.cap == 8, self.oom == 1), self.cap == 0), self.first == 0, self.last == 0, self.e.c.eng.addr(self.p) == 0)
        rs = self.st.mem[self.r]
        return z3.And(b, z3.BoolVal(rs.alive), self.p.o.term() == 0, z3.UGE(self.cap, 8), z3.ULE(self.cap, BV(1 << 56)), self.cap & (self.cap - 1) == 0, rs.size.term() == self.cap * self.e.isz, z3.ULT(self.first, self.cap), z3.ULT(self.last, self.cap))
    def pos(self, i): return simp((self.first + i) & (self.cap - 1))
    def at(self, i): return self.e.reads(self.st, self.r, self.pos(i))
def mkq(c, nm, nonempty=False, none=True):
    e = El(c, nm); kind = c.choose('queue', ('ring', 'none') if none and not nonempty else ('ring',)); s = 'sc_queue_' + nm
    if kind == 'none': o = c.struct('q', s, dict(cap=c.bv('cap'), first=BV(0), last=BV(0), elems=NULL, oom=c.bv('oom', 8)))
    else:
        cap = c.bv('cap'); c.assume(z3.ULE(cap, BV(1 << 56))); p = c.array('elems', e.ty, cap)
        o = c.struct('q', s, dict(cap=cap, first=c.bv('first'), last=c.bv('last'), elems=p, oom=c.bv('oom', 8)))
    q = Qs(e, c.st, o); c.assume(q.ok())
    if nonempty: c.assume(q.first != q.last)
    return e, o, Qs(e, c.st.clone(), o)
def qfin(c, out, e, o):
    h = Qs(e, out.st, o); c.ensure(out, 'queue is well-formed', h.ok()); c.ensure(out, 'no block is lost', live(out.st) == ([h.r] if h.r else [])); return h
def qsame(c, out, e, h, p, name, n=None, shift=0, old=0):
    """element i+shift of h is element i+old of p for i < n"""
    if p.r is None: c.ensure(out, name, h.r is None); return
    n = p.size if n is None else n; i = fresh('i')
    g = z3.Implies(z3.ULT(i, n), e.eq(h.at(i + shift), p.at(i + old))) if h.r is not None else n == 0
    if h.r is not None: c.hint(out, e.label(p.st, p.r), p.pos(i + old))
    c.ensure(out, name, g)
def makeq(nm, quick):
    Q = dict(QOPT) if quick else dict(QOPT, thorough_only=True); SRC = 'verif:native/wrap_queue.c'
    @contract('C07', SRC, name='queue_add_' + nm, **Q)
    def add(c):
        op = c.choose('op', ('addlast', 'addfirst')); e, o, p = mkq(c, nm); vp, v = e.value('value')
        for out in c.run('q_%s_%s' % (op, nm), [o, vp]):
            h = Qs(e, out.st, o)
            if c.eng.feasible(out.st, h.oom == 0): c.use(out, z3.ULE(h.cap, BV(1 << 56)))
            h = qfin(c, out, e, o)
            if not c.eng.feasible(out.st, h.oom == 0):
                c.ensure(out, 'fails only for lack of memory', z3.Or(z3.BoolVal(allocfail(out) or p.r is None), z3.UGT(p.cap, BV(1 << 40)))); c.ensure(out, 'failed add leaves the size', h.size == p.size); qsame(c, out, e, h, p, 'failed add leaves the elements'); continue
            c.ensure(out, 'success is reported', h.oom == 0); c.ensure(out, 'no allocation failed', not allocfail(out)); c.ensure(out, 'one element more', h.size == p.size + 1)
            f = op == 'addfirst'
            qsame(c, out, e, h, p, 'earlier elements kept in order', shift=1 if f else 0); c.ensure(out, 'the new element is at its end', e.eq(h.at(BV(0) if f else p.size), v))
    @contract('C07', SRC, name='queue_del_' + nm, **Q)
    def dele(c):
        op = c.choose('op', ('dellast', 'delfirst')); e, o, p = mkq(c, nm, True); vp, v = e.value('value')
        for out in c.run('q_%s_%s' % (op, nm), [o, vp]):
            h = qfin(c, out, e, o); f = op == 'delfirst'; c.ensure(out, 'one element less', h.size == p.size - 1); c.ensure(out, 'capacity and flag kept', z3.And(h.cap == p.cap, h.oom == p.oom))
            qsame(c, out, e, h, p, 'other elements kept in order', n=h.size, old=1 if f else 0)
            c.ensure(out, 'the removed element is returned', e.eq(e.reads(out.st, vp.r, BV(0)), p.at(BV(0) if f else p.size - 1)))
    @contract('C07', SRC, name='queue_access_' + nm, **Q)
    def access(c):
        op = c.choose('op', ('at', 'peekfirst', 'peeklast', 'size', 'empty', 'oom')); ne = op in ('at', 'peekfirst', 'peeklast'); e, o, p = mkq(c, nm, ne); i = c.bv('i'); vp, v = e.value('value')
        if op == 'at': c.assume(z3.ULT(i, p.size))
        args = [o, i, vp] if op == 'at' else [o, vp] if ne else [o]
        for out in c.run('q_%s_%s' % (op, nm), args):
            h = qfin(c, out, e, o); c.ensure(out, 'header kept', z3.And(h.first == p.first, h.last == p.last, h.cap == p.cap, h.oom == p.oom)); qsame(c, out, e, h, p, 'elements kept')
            if ne: c.ensure(out, 'the element at the position', e.eq(e.reads(out.st, vp.r, BV(0)), p.at({'at': i, 'peekfirst': BV(0), 'peeklast': p.size - 1}[op])))
            elif op == 'size': c.ensure(out, 'number of elements', out.ret == p.size)
            elif op == 'empty': c.ensure(out, 'empty exactly when it has no elements', okret(c, out.ret) == (p.size == 0))
            else: c.ensure(out, 'flag', okret(c, out.ret) == (p.oom != 0))
    @contract('C07', SRC, name='queue_misc_' + nm, **Q)
    def misc(c):
        op = c.choose('op', ('init', 'term', 'clear'))
        if op == 'init': e = El(c, nm); o = c.struct('q', 'sc_queue_' + nm)
        else: e, o, p = mkq(c, nm, none=op != 'clear')
        for out in c.run('q_%s_%s' % (op, nm), [o]):
            h = Qs(e, out.st, o)
            if op == 'term': c.ensure(out, 'block released', z3.And(z3.BoolVal(h.r is None and not live(out.st)), h.ok(), h.oom == 0)); continue
            h = qfin(c, out, e, o); c.ensure(out, 'no elements', h.size == 0)
            if op == 'clear': c.ensure(out, 'capacity kept, flag cleared', z3.And(h.cap == p.cap, h.oom == 0))
            else: c.ensure(out, 'failure exactly when memory ran out', z3.And((h.oom != 0) == z3.BoolVal(allocfail(out)), z3.BoolVal((h.r is None) == allocfail(out))))
    @contract('C07', SRC, name='queue_foreach_' + nm, **Q)
    def each(c):
        e, o, p = mkq(c, nm)
        iterate(c, e, o, p, 'q_foreach_' + nm, lambda i: p.at(i), p.size)
for nm in TYPES: makeq(nm, nm in ('int', '64', 'rec'))
