"""Contracts for heap/sc_heap.c: a multiset of key/data pairs with least-key access"""
import z3
from vf.contract import contract, Obj
from vf.mem import *
from vf.core import All, simp
from vf.ir import INT
SRC = 'heap/sc_heap.c'; ITEM = 'sc_heap_data'
OPT = dict(search='heap', replay=False, bbfirst=3000, cand_ms=10000, assumptions=['induction over heap positions: a root not above its children in every position is not above any element (the induction step is discharged)',
    'allocations of 2^61 bytes or more fail', 'a heap is initialised with sc_heap_init before use'])
class Hp:
    def __init__(self, c):
        self.c = c; mod = c.mod; self.isz = mod.size(mod.struct(ITEM)); self.ko = mod.members[ITEM]['key'][0]; self.do = mod.members[ITEM]['data'][0]
        self.qk, self.qd = c.bv('qk'), c.bv('qd')         # the observed pair, arbitrary
        self.S = None                                     # slots 1..S are counted
        c.eng.opt['arrhook'] = self.hook; c.eng.loop_cands.append(self.cands)
        c.eng.opt['noframes'] = lambda st: [r for r, rs in st.mem.items() if self.items(rs)]
    def items(self, rs): return rs.alive and rs.segs is not None and len(rs.segs) == 1 and rs.segs[0].arrs is not None and rs.segs[0].stride == self.isz and self.ko in rs.segs[0].arrs and rs.kind == 'heap'
    def K(self, st, r): return st.mem[r].segs[0].arrs[self.ko]
    def D(self, st, r): return st.mem[r].segs[0].arrs[self.do]
    def match(self, k, d): return z3.If(z3.And(k == self.qk, self.c.eng.tobits(d) == self.qd), BV(1), BV(0))
    def at(self, st, r, i): return self.match(self.K(st, r).read(i), self.D(st, r).read(i))
    def hook(self, eng, st, rid, si, fo, idx, b, old):
        """ghost counter of the observed pair in the filled slots 1..S"""
        if self.S is None or not self.items(st.mem[rid]): return
        k1, d1 = self.K(st, rid).read(idx), self.D(st, rid).read(idx)
        k0, d0 = (old.read(idx), d1) if fo == self.ko else (k1, old.read(idx))
        f = st.ghost['filled']; lst = idx == self.S
        before = z3.If(z3.And(lst, z3.Not(f)), BV(0), self.match(k0, d0))
        st.ghost['G'] = simp(z3.If(z3.And(z3.UGE(idx, BV(1)), z3.ULE(idx, self.S)), st.ghost['G'] + self.match(k1, d1) - before, st.ghost['G']))
        st.ghost['filled'] = simp(z3.Or(f, lst))
        for n in ('G', 'filled'): eng.log((None, 'ghost', n))
    def order(self, st, r, n):
        K = self.K(st, r)
        return All((K.label,), lambda x: z3.Implies(z3.And(z3.UGE(x, BV(2)), z3.ULE(x, n)), K.read(z3.LShR(x, 1)) <= K.read(x)))
    def cands(self, L):
        out = []; add = lambda n, f: out.append((n, f))
        if self.S is None: return out
        for r in [r for r, rs in L.st0.mem.items() if self.items(rs)]:
            ints = [k for k in L.vars if k[0] == 'phi' and L.kind[k] == 'int' and L.width[k] == 64]
            for k in ints:
                n = k[1]
                def G(V, k=k, r=r):
                    def g(st, i): return st.ghost['G'] - z3.If(z3.And(i == self.S, z3.Not(st.ghost['filled'])), BV(0), self.at(st, r, i))
                    return g(V.st, V.cur(k)) == g(V.st0, V.ent(k))
                add('multiset without slot %s unchanged' % n, G)
                add('%s is a slot' % n, lambda V, k=k: z3.And(z3.UGE(V.cur(k), 1), z3.ULE(V.cur(k), self.S)))
                hi = self.hi
                def A(V, k=k, r=r):
                    K = self.K(V.st, r); i = V.cur(k)
                    return All((K.label,), lambda x: z3.Implies(z3.And(z3.UGE(x, BV(2)), z3.ULE(x, hi), x != i, z3.LShR(x, 1) != i), K.read(z3.LShR(x, 1)) <= K.read(x)))
                add('order except at %s' % n, A)
                def C(V, k=k, r=r):
                    K = self.K(V.st, r); i = V.cur(k)
                    return All((K.label,), lambda x: z3.Implies(z3.And(z3.UGE(x, BV(2)), z3.ULE(x, hi), z3.LShR(x, 1) == i, z3.UGE(i, 2)), K.read(z3.LShR(i, 1)) <= K.read(x)))
                add('order across %s' % n, C)
                for b in L.bounds:
                    if b.size() != 64: continue
                    def B1(V, k=k, r=r, b=b):
                        K = self.K(V.st, r); i = V.cur(k)
                        return All((K.label,), lambda x: z3.Implies(z3.And(z3.UGE(x, BV(2)), z3.ULE(x, hi), z3.LShR(x, 1) == i), b <= K.read(x)))
                    add('new key below children of %s' % n, B1)
                    def B2(V, k=k, r=r, b=b):
                        K = self.K(V.st, r); i = V.cur(k)
                        return z3.Implies(z3.UGE(i, 2), K.read(z3.LShR(i, 1)) <= b)
                    add('new key not below parent of %s' % n, B2)
                add('slot 0 of %s kept' % r, lambda V, r=r: z3.And(self.K(V.st, r).read(BV(0)) == self.K(V.st0, r).read(BV(0)), self.D(V.st, r).read(BV(0)) == self.D(V.st0, r).read(BV(0))))
                add('%s is the new slot, or that is filled' % n, lambda V, k=k: z3.Or(V.cur(k) == self.S, V.st.ghost['filled']))
                add('last slot of %s kept' % r, lambda V, r=r: z3.And(self.K(V.st, r).read(self.S) == self.K(V.st0, r).read(self.S), self.D(V.st, r).read(self.S) == self.D(V.st0, r).read(self.S)))
                add('%s is not the last slot unless it is the only one' % n, lambda V, k=k: z3.Or(V.cur(k) != self.S, self.S == 1))
                add('filled from then on', lambda V: V.st.ghost['filled'] == V.st0.ghost['filled'])
                for j in ints:
                    if j != k: add('%s = 2*%s' % (j[1], n), lambda V, j=j, k=k: V.cur(j) == V.cur(k) * 2)
        return out

class H:
    def __init__(self, t, st, o):
        g = lambda f: t.c.getf(st, o, f); self.t, self.st = t, st
        self.p, self.cap, self.size = g('elems'), g('cap'), g('size'); self.r = self.p.r
    def ok(self):
        """[(name, formula)]: well-formedness"""
        t = self.t
        if self.r is None: return [('no block: capacity and size are zero', z3.And(self.cap == 0, self.size == 0, t.c.eng.addr(self.p) == 0))]
        rs = self.st.mem[self.r]
        return [('block is live', z3.BoolVal(rs.alive)), ('block holds the capacity', z3.And(self.p.o.term() == 0, z3.UGE(self.cap, 1), z3.ULE(self.cap, BV(1 << 57)), z3.UGE(rs.size.term(), self.cap * t.isz))),
                ('size below capacity', z3.ULT(self.size, self.cap))]

def mk(c, kinds=('block', 'none')):
    t = Hp(c); kind = c.choose('heap', kinds); st = c.st
    if kind == 'none': o = c.struct('h', 'sc_heap', dict(cap=BV(0), size=BV(0), elems=NULL))
    else:
        n = c.bv('slots'); c.assume(z3.ULE(n, BV(1 << 58))); p = c.array('elems', ITEM, n)
        o = c.struct('h', 'sc_heap', dict(cap=c.bv('cap'), size=c.bv('size'), elems=p))
    h = H(t, st, o)
    for n, f in h.ok(): c.assume(f)
    cnt = BV(0)
    if kind == 'block':
        c.assume(t.order(st, h.r, h.size)); cnt = c.bv('g.count')
    t.cnt = cnt
    return t, o, H(t, st.clone(), o)
def inv(c, out, t, h):
    for n, f in h.ok(): c.ensure(out, 'invariant: ' + n, f)
    if h.r is not None: c.ensure(out, 'invariant: no element is below its parent', t.order(out.st, h.r, h.size))
    live = [r for r, rs in out.st.mem.items() if rs.kind == 'heap' and rs.alive]
    c.ensure(out, 'no block is lost', z3.BoolVal(live == ([h.r] if h.r else [])))
def allsame(c, out, t, h, p, name):
    c.ensure(out, name, z3.And(h.size == p.size, h.cap == p.cap, z3.BoolVal(h.r == p.r)))
    if h.r == p.r and h.r is not None:
        for a, b in ((t.K(out.st, h.r), t.K(p.st, p.r)), (t.D(out.st, h.r), t.D(p.st, p.r))):
            c.ensure(out, name, All((a.label,), lambda x, a=a, b=b: z3.Implies(z3.And(z3.UGE(x, BV(1)), z3.ULE(x, p.size)), a.read(x) == b.read(x))))
def least(c, out, t, st, r, n):
    """the root key is least: induction over positions, the step is an obligation"""
    K = t.K(st, r); x = fresh('x')
    step = z3.Implies(z3.And(z3.UGE(x, 2), z3.ULE(x, n), K.read(BV(1)) <= K.read(z3.LShR(x, 1))), K.read(BV(1)) <= K.read(x))
    c.hint(out, K.label, x); c.lemma(out, 'induction step: root not above its children means not above any element', step)
    return All((K.label,), lambda y: z3.Implies(z3.And(z3.UGE(y, BV(1)), z3.ULE(y, n)), K.read(BV(1)) <= K.read(y)))

@contract('C08', SRC, name='heap_add', **OPT)
def add(c):
    t, o, p = mk(c); k = c.bv('key'); d = c.opaque('data'); db = c.eng.tobits(d)
    t.S = t.hi = p.size + 1; c.st.ghost['G'] = t.cnt; c.st.ghost['filled'] = z3.BoolVal(False)
    for out in c.run('sc_heap_add', [o, k, d]):
        h = H(t, out.st, o); fl = any(x[0] in ('alloc', 'realloc') and x[1] is None for x in out.st.trace) or any(x == ('realloc_fail',) or x[0] == 'realloc' and x[2] is None for x in out.st.trace)
        okf = c.eng.tobits(out.ret) != 0 if not z3.is_bool(out.ret) else out.ret
        if not c.eng.feasible(out.st, okf):
            c.ensure(out, 'failure only for lack of memory', z3.Or(z3.BoolVal(fl), z3.UGT(p.cap, BV(1 << 50)))); inv(c, out, t, h); allsame(c, out, t, h, p, 'failed insertion leaves the heap as it was'); continue
        c.use(out, z3.ULE(h.cap, BV(1 << 57)))
        c.ensure(out, 'success is reported', okf); inv(c, out, t, h)
        c.ensure(out, 'one element more', h.size == p.size + 1)
        c.ensure(out, 'the multiset gains exactly the new pair', z3.And(out.st.ghost['filled'], out.st.ghost['G'] == t.cnt + t.match(k, d)))
@contract('C08', SRC, name='heap_pop', **OPT)
def pop(c):
    t, o, p = mk(c); t.S = p.size; t.hi = p.size - 1; c.st.ghost['G'] = t.cnt; c.st.ghost['filled'] = z3.BoolVal(True)
    for out in c.run('sc_heap_pop', [o]):
        h = H(t, out.st, o); r = out.ret
        if r.r is None:
            c.ensure(out, 'null exactly for the empty heap', z3.And(c.eng.addr(r) == 0, p.size == 0)); inv(c, out, t, h); allsame(c, out, t, h, p, 'empty heap unchanged'); continue
        c.ensure(out, 'not empty', p.size != 0); inv(c, out, t, h); c.ensure(out, 'one element less', h.size == p.size - 1)
        ld = lambda f, ty: c.eng.tobits(c.eng.rawload(out.st, out.st.mem[r.r], r.add(Lin(f)), ty))
        rk, rd = ld(t.ko, INT(64)), c.eng.tobits(c.eng.rawload(out.st, out.st.mem[r.r], r.add(Lin(t.do)), c.fty(ITEM, 'data')))
        c.ensure(out, 'the multiset loses exactly the returned pair', out.st.ghost['G'] - t.at(out.st, h.r, p.size) == t.cnt - t.match(rk, rd))
        K0 = t.K(p.st, p.r); c.ensure(out, 'the returned pair was the root', z3.And(rk == K0.read(BV(1)), rd == c.eng.tobits(t.D(p.st, p.r).read(BV(1)))))
        c.ensure(out, 'the returned pair is not one of the remaining slots', z3.Or(r.o.term() == 0, z3.UGE(r.o.term(), (h.size + 1) * t.isz)))
        f = least(c, out, t, p.st, p.r, p.size); c.use(out, f)
        c.ensure(out, 'no element has a smaller key', All((K0.label,), lambda y: z3.Implies(z3.And(z3.UGE(y, BV(1)), z3.ULE(y, p.size)), rk <= K0.read(y))))
@contract('C08', SRC, name='heap_peek', **OPT)
def peek(c):
    t, o, p = mk(c)
    for out in c.run('sc_heap_peek', [o]):
        h = H(t, out.st, o); r = out.ret; allsame(c, out, t, h, p, 'heap unchanged')
        if r.r is None: c.ensure(out, 'null exactly for the empty heap', z3.And(c.eng.addr(r) == 0, p.size == 0)); continue
        c.ensure(out, 'the result is an element', z3.And(p.size != 0, z3.BoolVal(r.r == h.r), r.o.term() == BV(t.isz)))
        f = least(c, out, t, out.st, h.r, h.size); c.use(out, f); K = t.K(out.st, h.r)
        c.ensure(out, 'no element has a smaller key', All((K.label,), lambda y: z3.Implies(z3.And(z3.UGE(y, BV(1)), z3.ULE(y, h.size)), K.read(BV(1)) <= K.read(y))))
@contract('C08', SRC, name='heap_misc', **OPT)
def misc(c):
    op = c.choose('op', ('init', 'term', 'size', 'clear'))
    if op == 'init':
        t = Hp(c); o = c.struct('h', 'sc_heap'); cap = c.bv('cap')
        for out in c.run('sc_heap_init', [o, cap]):
            h = H(t, out.st, o); okf = c.eng.tobits(out.ret) != 0 if not z3.is_bool(out.ret) else out.ret
            if not c.eng.feasible(out.st, okf):
                c.ensure(out, 'failed init leaves an empty heap', z3.And(z3.BoolVal(h.r is None), h.cap == 0, h.size == 0)); c.ensure(out, 'no block kept', z3.BoolVal(not [1 for rs in out.st.mem.values() if rs.kind == 'heap' and rs.alive])); continue
            c.use(out, z3.ULE(cap, BV(1 << 57)))
            c.ensure(out, 'success', okf); c.ensure(out, 'the new heap is empty', h.size == 0); c.ensure(out, 'capacity as requested', h.cap == cap)
            for n, f in h.ok(): c.ensure(out, 'invariant: ' + n, f)
            live = [r for r, rs in out.st.mem.items() if rs.kind == 'heap' and rs.alive]; c.ensure(out, 'no block is lost', z3.BoolVal(live == ([h.r] if h.r else [])))
        return
    t, o, p = mk(c)
    for out in c.run('sc_heap_' + op, [o]):
        h = H(t, out.st, o)
        if op == 'size': c.ensure(out, 'size is the number of elements', out.ret == p.size); allsame(c, out, t, h, p, 'heap unchanged')
        elif op == 'clear': c.ensure(out, 'no elements', h.size == 0); inv(c, out, t, h); c.ensure(out, 'capacity kept', h.cap == p.cap)
        else:
            c.ensure(out, 'block released and heap empty', z3.And(z3.BoolVal(not [1 for rs in out.st.mem.values() if rs.kind == 'heap' and rs.alive] and h.r is None), h.size == 0, h.cap == 0))
