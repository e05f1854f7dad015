"""Contracts for map/sc_map.c: every generated map is a finite map, for an arbitrary observed key"""
import z3, struct
from vf.contract import contract, Obj, Out
from vf.mem import *
from vf.mem import _keep
from vf import mem as _m
from vf.core import All, simp
from vf.ir import INT, PTR
SRC = 'map/sc_map.c'
SCAL = ['int', 'intv', 'ints', 'll', 'llv', 'lls', '32', '64', '64v', '64s']
STR = ['str', 'sv', 's64', 'sll']
SID = z3.Function('textid', z3.BitVecSort(64), z3.BitVecSort(64))      # identity of the text behind a key pointer
MH = z3.Function('texthash', z3.BitVecSort(64), z3.BitVecSort(32))
UF = {}
def uf(name, ws, w):
    k = (name, tuple(ws), w)
    if k not in UF: UF[k] = z3.Function(name, *[z3.BitVecSort(x) for x in ws], z3.BitVecSort(w))
    return UF[k]
def z64(t): return t if t.size() == 64 else z3.ZeroExt(64 - t.size(), t)

class T:
    """layout and logical functions of one map type"""
    def __init__(self, c, nm):
        self.c, self.nm, self.s = c, nm, nm in STR
        mod = c.mod; it = 'sc_map_item_' + nm; self.it = it
        self.isz = mod.size(mod.struct(it))
        self.ko, self.kw = mod.members[it]['key'][0], mod.members[it]['key'][1] * 8
        self.vo, self.vw = mod.members[it]['value'][0], mod.members[it]['value'][1] * 8
        self.ho = mod.members[it]['hash'][0] if self.s else None
        self.q = c.bv('q', 64 if self.s else self.kw)      # the observed key (text for string maps); arbitrary
        if not self.s: c.assume(self.q != 0)
        self._h = {}
        e = c.eng
        if self.s:
            e.contracts['@murmurhash'] = lambda eng, st, a: [(st, MH(SID(eng.addr(a[0]))))]
            def cmp(eng, st, a):
                r = fresh('strcmp', 32); x, y = eng.addr(a[0]), eng.addr(a[1])
                eng.oblige(st, z3.And(x != 0, y != 0), 'memory', 'strcmp of non-null texts')
                eng.addhyp(st, (r == 0) == (SID(x) == SID(y))); return [(st, r)]
            e.models['strcmp'] = cmp
        else:
            for f in c.mod.funcs.values():
                n = f.name[1:]
                if n.startswith('sc_map_hash_') and all(t.k == 'int' for t, _ in f.params):
                    F = uf(n, [t.n for t, _ in f.params], 32)
                    e.contracts[f.name] = lambda eng, st, a, F=F: [(st, F(*a))]
        e.opt['ontype'] = self.ontype; e.opt['arrhook'] = self.hook; e.opt['onloop'] = self.onloop; e.opt['bbfirst'] = 4000
        e.opt['noframes'] = lambda st: [r for r, rs in st.mem.items() if self.isitems(rs) and rs.kind == 'heap' and self.ghosts(st, r)[0] is not None]
        e.fp_fact = fpfact
        e.loop_cands.append(self.cands); e.opt['measures'] = [self.measures]
        self.key = None
    def sid(self, k): return SID(k) if self.s else k
    def hashof(self, k):
        """hash of a key, by running the type's hash function on it"""
        if self.s: return MH(SID(k))
        i = k.get_id()
        if i not in self._h:
            from vf.core import State
            st = State(); rid = 'hitem#%d' % freshn()
            st.mem[rid] = RegState(Lin(self.isz), 'ext', 'hitem', self.c.eng.structsegs(self.c.mod.struct(self.it), 'hitem'))
            st.mem[rid].segs[0].scal[self.ko] = k
            e = self.c.eng; e.quiet += 1
            try: r = e.run(st, e.mod.funcs['@sc_map_hashof_' + self.nm], [Ptr(rid, Lin(0))], 0)
            finally: e.quiet -= 1
            if len(r) != 1: raise Unsupported('hash function branches')
            self._h[i] = r[0][1]; _keep.append(k)
        return self._h[i]
    # ---- views of an item array
    def isitems(self, rs): return rs.alive and rs.segs is not None and len(rs.segs) == 1 and rs.segs[0].arrs is not None and rs.segs[0].stride == self.isz and self.ko in rs.segs[0].arrs and rs.kind != 'global'
    def K(self, st, r): return st.mem[r].segs[0].arrs[self.ko]
    def Va(self, st, r): return st.mem[r].segs[0].arrs[self.vo]
    def Ha(self, st, r): return st.mem[r].segs[0].arrs[self.ho]
    def cap(self, st, r):
        q = st.mem[r].size.divmod(self.isz)
        if q is None: raise Unsupported('item array size')
        return simp(q[0].term() - 1)
    def ghosts(self, st, r): return [st.ghost.get((n, r, 0, self.ko)) for n in ('count', 'has', 'at')]
    def ontype(self, eng, st, rid):
        rs = st.mem[rid]
        if rs.zero and rs.kind == 'heap' and self.isitems(rs): self.setghost(st, rid, BV(0), z3.BoolVal(False), BV(0))
    def setghost(self, st, r, cnt, has, at):
        st.ghost[('count', r, 0, self.ko)] = cnt; st.ghost[('has', r, 0, self.ko)] = has; st.ghost[('at', r, 0, self.ko)] = at
    def hook(self, eng, st, rid, si, fo, idx, b, old):
        """ghost: where the observed key was stored last"""
        if fo != self.ko or ('has', rid, si, fo) not in st.ghost: return
        h, a = st.ghost[('has', rid, si, fo)], st.ghost[('at', rid, si, fo)]
        isq = z3.And(b != BV(0, b.size()), self.sid(b) == self.q)
        st.ghost[('has', rid, si, fo)] = simp(z3.Or(isq, z3.And(h, a != idx))); st.ghost[('at', rid, si, fo)] = simp(z3.If(isq, idx, a))
        for n in ('has', 'at'): eng.log((rid, 'ghost', (n, rid, si, fo)))
    def onloop(self, eng, st, env, fr, header):
        """pigeonhole: fewer used than slots leaves an empty slot"""
        em = ()
        for r, rs in st.mem.items():
            if not self.isitems(rs): continue
            cnt = st.ghost.get(('count', r, 0, self.ko))
            if cnt is None: continue
            n = self.cap(st, r)
            if eng.prove(st, z3.ULT(cnt, n), 'count below capacity', 3000)[0] != 'proved': continue
            x = fresh('empty'); K = self.K(st, r)
            eng.addhyp(st, z3.And(z3.UGE(x, BV(1)), z3.ULE(x, n), K.read(x) == BV(0, self.kw)))
            st.hints.append((K.label, x)); em += ((r, x),)
        st.ghost['empties'] = (st.ghost.get('empties', ()) + em)[-6:]
    # ---- formulas
    def dist(self, x, h, n): return simp((z64(x) - z64(h)) & (n - 1))
    def cyc(self, h, x, y):
        """x lies cyclically in [h, y) (all three below the capacity)"""
        h, x, y = z64(h), z64(x), z64(y)
        return z3.Or(z3.And(z3.ULE(h, x), z3.ULT(x, y)), z3.And(z3.ULT(y, h), z3.Or(z3.ULE(h, x), z3.ULT(x, y))))
    def upto(self, h, x, y): return z3.Or(self.cyc(h, x, y), z64(x) == z64(y))
    def home(self, h, n): return z64(h & z3.Extract(31, 0, n - 1))
    def probe(self, st, r, extra=None):
        """every slot cyclically between an entry's home and the entry is used (except as `extra` permits)"""
        K = self.K(st, r); n = self.cap(st, r); H = None if not self.s else self.Ha(st, r)
        def body(x, y):
            kx = K.read(x); h = self.hashof(kx) if not self.s else H.read(x)
            c = z3.And(z3.UGE(x, BV(1)), z3.ULE(x, n), z3.UGE(y, BV(1)), z3.ULE(y, n), kx != 0, self.cyc(self.home(h, n), y - 1, x - 1), K.read(y) == 0)
            return z3.Implies(c, extra(x, y)) if extra else z3.Not(c)
        return All((K.label, K.label), body)
    def inr(self, x, n): return z3.And(z3.UGE(x, BV(1)), z3.ULE(x, n))
    def linked(self, st, r, q=None, has=None, at=None):
        """(has, at) locate the observed key, which occurs at most once"""
        K = self.K(st, r); n = self.cap(st, r)
        if q is None: q = self.q; _, has, at = self.ghosts(st, r)
        return [z3.Implies(has, z3.And(self.inr(at, n), K.read(at) != 0, self.sid(K.read(at)) == q)),
                All((K.label,), lambda x: z3.Implies(z3.And(self.inr(x, n), K.read(x) != 0, self.sid(K.read(x)) == q), z3.And(has, x == at)))]
    def hashes(self, st, r):
        if not self.s: return []
        K, H = self.K(st, r), self.Ha(st, r); n = self.cap(st, r)
        return [All((K.label, H.label), lambda x, y: z3.Implies(z3.And(x == y, self.inr(x, n), K.read(x) != 0), H.read(x) == MH(SID(K.read(x)))))] if False else \
               [All(((K.label, H.label),), lambda x: z3.Implies(z3.And(self.inr(x, n), K.read(x) != 0), H.read(x) == MH(SID(K.read(x)))))]
    # ---- loop invariants
    def regs(self, L, st): return [r for r, rs in st.mem.items() if self.isitems(rs)]
    def cands(self, L):
        out = []; add = lambda n, f: out.append((n, f))
        st0 = L.st0; regs = self.regs(L, st0); modr = {k[0] for k in L.arrs if k[1] == 0}
        i32 = [k for k in L.vars if k[0] == 'phi' and L.kind[k] == 'int' and L.width[k] == 32]
        for r in regs:
            n = self.cap(st0, r)
            for k in i32:
                nm = '%s/%s' % (k[1], r.split('#')[0])
                add('%s is a slot' % nm, lambda V, k=k, n=n: z3.ULT(V.u64(k), n))
                add('%s at most capacity' % nm, lambda V, k=k, n=n: z3.ULE(V.u64(k), n))
                if r in modr: continue
                def passed(V, k=k, r=r, n=n, neq=False):
                    K = self.K(V.st, r); e = V.u64(k, True); p = V.u64(k)
                    def body(x):
                        c = z3.And(self.inr(x, n), self.cyc(e, x - 1, p))
                        return z3.Implies(c, self.sid(K.read(x)) != self.sid(self.key) if neq else K.read(x) != 0)
                    return All((K.label,), body)
                add('slots passed by %s are used' % nm, passed)
                if self.key is not None: add('slots passed by %s hold other keys' % nm, lambda V, f=passed: f(V, neq=True))
        for r in regs:
            if r not in modr: continue
            n = self.cap(st0, r)
            add('probe sequences of %s intact' % r, lambda V, r=r: self.probe(V.st, r))
            g0 = self.ghosts(st0, r)
            if g0[0] is None: continue
            add('observed key located in %s' % r, lambda V, r=r: self.linked(V.st, r)[0])
            add('observed key unique in %s' % r, lambda V, r=r: self.linked(V.st, r)[1])
            add('count of %s constant' % r, lambda V, r=r: self.ghosts(V.st, r)[0] == self.ghosts(V.st0, r)[0])
            add('presence in %s constant' % r, lambda V, r=r: self.ghosts(V.st, r)[1] == self.ghosts(V.st0, r)[1])
            def vs(V, r=r):
                _, h, a = self.ghosts(V.st, r); _, h0, a0 = self.ghosts(V.st0, r)
                return z3.Implies(h, z3.And(self.Va(V.st, r).read(a) == self.Va(V.st0, r).read(a0), self.K(V.st, r).read(a) == self.K(V.st0, r).read(a0)))
            add('value in %s moves along' % r, vs)
            for f in range(len(self.hashes(st0, r))): add('stored hashes of %s' % r, lambda V, r=r, f=f: self.hashes(V.st, r)[f])
            add('zero slot of %s' % r, lambda V, r=r: self.K(V.st, r).read(BV(0)) == 0)
            add('zero slot value of %s' % r, lambda V, r=r: self.Va(V.st, r).read(BV(0)) == self.Va(V.st0, r).read(BV(0)))
            for j in range(6):
                def em(V, j=j, r=r):
                    e = V.st0.ghost.get('empties', ())
                    if j >= len(e) or e[j][0] != r: return None
                    return self.K(V.st, r).read(e[j][1]) == 0
                add('empty slot %d stays' % j, em)
            # clearing from the start
            for k in i32:
                add('%s cleared below %s' % (r, k[1]), lambda V, k=k, r=r: All((self.K(V.st, r).label,), lambda x, V=V: z3.Implies(z3.And(z3.UGE(x, BV(1)), z3.ULE(x, V.u64(k))), self.K(V.st, r).read(x) == 0)))
            # backward shift: hole a, cursor b
            for a in i32:
                for b in i32:
                    if a == b: continue
                    nm = '%s,%s' % (a[1], b[1])
                    add('hole %s empty' % nm, lambda V, a=a, r=r: self.K(V.st, r).read(V.u64(a) + 1) == 0)
                    def run(V, a=a, b=b, r=r, n=n):
                        K = self.K(V.st, r)
                        return All((K.label,), lambda x: z3.Implies(z3.And(self.inr(x, n), x - 1 != V.u64(a), self.upto(V.u64(a), x - 1, V.u64(b))), K.read(x) != 0))
                    add('used between hole and cursor %s' % nm, run)
                    add('probe sequences intact but for hole %s' % nm, lambda V, a=a, b=b, r=r, n=n: self.probe(V.st, r, lambda x, y: z3.And(y - 1 == V.u64(a), z3.Not(self.upto(V.u64(a), x - 1, V.u64(b))))))
                    for j in range(6):
                        def eh(V, j=j, r=r, a=a):
                            e = V.st0.ghost.get('empties', ())
                            if j >= len(e) or e[j][0] != r: return None
                            return e[j][1] - 1 != V.u64(a)
                        add('hole %s is not empty slot %d' % (a[1], j), eh)
            # copying from another array with index k
            for o in regs:
                if o in modr or self.ghosts(st0, o)[0] is None: continue
                for k in i32:
                    def moved(V, k=k, o=o, r=r):
                        _, h, a = self.ghosts(V.st, r); _, ho, ao = self.ghosts(V.st, o)
                        return z3.And(h == z3.And(ho, z3.ULE(ao, V.u64(k))), z3.Implies(h, z3.And(self.Va(V.st, r).read(a) == self.Va(V.st, o).read(ao), self.K(V.st, r).read(a) == self.K(V.st, o).read(ao))))
                    add('entries below %s copied from %s' % (k[1], o), moved)
                    def counted(V, k=k, o=o, r=r):
                        C = self.prefix(V.st, o)
                        return z3.And(self.ghosts(V.st, r)[0] == C(V.u64(k)), z3.ULE(C(V.u64(k)), V.u64(k)))
                    add('count below %s' % k[1], counted)
        return out
    def prefix(self, st, r):
        """prefix count of used slots 1..i of an unmodified array; equals the ghost count at the end"""
        key = ('prefix', r)
        if key not in st.ghost: raise Unsupported('prefix')
        return st.ghost[key]
    def addprefix(self, st, r):
        C = z3.Function('used!%d' % freshn(), z3.BitVecSort(64), z3.BitVecSort(64)); K = self.K(st, r); n = self.cap(st, r)
        st.ghost[('prefix', r)] = C
        self.c.assume(C(BV(0)) == 0, st)
        self.c.assume(All((K.label,), lambda x: z3.Implies(self.inr(x, n), z3.And(C(x) == C(x - 1) + z3.If(K.read(x) != 0, BV(1), BV(0)), z3.ULE(C(x), x))), ''), st)
        self.c.assume(C(n) == self.ghosts(st, r)[0], st)
    def measures(self, L):
        out = []
        for k in L.vars:
            if k[0] == 'phi' and L.kind[k] == 'int' and L.width[k] == 32:
                for j in range(6):
                    def m(V, k=k, j=j):
                        e = V.st0.ghost.get('empties', ())
                        if j >= len(e): return None
                        return self.dist(e[j][1] - 1, V.u64(k), self.cap(V.st, e[j][0]))
                    out.append(('distance from %s to an empty slot' % k[1], m))
        return out

RF = z3.Function('threshold', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))    # floor(capacity * load factor / 100)
def rffacts(cap, lf):
    """facts of floor(capacity * load factor / 100) for capacity 8..2^31, load factor 25..95 (checked by evaluation below)"""
    lf = z64(lf)
    return z3.Implies(z3.And(pow2(cap), z3.UGE(lf, 25), z3.ULE(lf, 95)), z3.And(z3.UGE(RF(cap, lf), 1), z3.ULT(RF(cap, lf), cap), z3.UGE(RF(cap * 2, lf), RF(cap, lf) * 2)))
assert all(1 <= (1 << i) * l // 100 < (1 << i) and (2 << i) * l // 100 >= 2 * ((1 << i) * l // 100) for i in range(3, 32) for l in range(25, 96))
def pow2(n): return z3.And(n & (n - 1) == 0, z3.UGE(n, 8), z3.ULE(n, 1 << 31))
def fpfact(eng, st, op, v, w):
    """conversion of a double expression over capacity (power of two) and load factor: evaluated on every pair"""
    acc = {}; eng.fleaves(v, acc); dom = []
    for t in acc.values():
        t64 = z64(t)
        if eng.prove(st, pow2(t64), 'fp domain', 8000)[0] == 'proved': dom.append((t, [1 << i for i in range(3, 32)], 'cap'))
        elif eng.prove(st, z3.And(z3.UGE(t64, 25), z3.ULE(t64, 95)), 'fp domain', 8000)[0] == 'proved': dom.append((t, range(25, 96), 'lf'))
        else: raise Unsupported('double expression over unbounded values')
    import itertools
    r = fresh('fp', w); lt = ge = exact = True; caps = [t for t, _, k in dom if k == 'cap']
    for tup in itertools.product(*[d for _, d, _ in dom]):
        x = eng.feval(v, {t.get_id(): val for (t, _, _), val in zip(dom, tup)})
        if not (x >= 0 and x < 2.0 ** w):
            eng.oblige(st, z3.BoolVal(False), 'arithmetic', 'float to integer conversion in range'); break
        n = int(x); cv = [val for (t, _, k), val in zip(dom, tup) if k == 'cap']
        ge = ge and n >= 1; lt = lt and bool(cv) and n < cv[0]
        if exact and [k for _,_,k in dom]==['cap','lf']: exact = n == cv[0] * [val for (t, _, k), val in zip(dom, tup) if k == 'lf'][0] // 100
        elif exact and [k for _,_,k in dom]==['lf','cap']: exact = n == cv[0] * [val for (t, _, k), val in zip(dom, tup) if k == 'lf'][0] // 100
        else: exact = False
    if exact: eng.addhyp(st, z64(r) == RF(z64(caps[0]), z64([t for t, _, k in dom if k == 'lf'][0])))
    if ge: eng.addhyp(st, z3.UGE(r, BV(1, w)))
    if lt: eng.addhyp(st, z3.ULT(z64(r), z64(caps[0])))
    return r

class M:
    """abstract state of a map"""
    def __init__(self, t, st, o):
        c = t.c; self.t, self.st, self.o = t, st, o
        g = lambda f: c.getf(st, o, f)
        self.mem = g('mem'); self.cap = z64(g('cap')); self.size = z64(g('size')); self.lf = g('load_fac'); self.remap = z64(g('remap')); self.used = g('used'); self.oom = g('oom'); self.found = g('found')
        self.r = self.mem.r
        self.empty = self.r is not None and st.mem[self.r].kind == 'global'
    def zval(self):
        """value stored under the zero key"""
        return self.t.c.eng.tobits(self.t.c.eng.rawload(self.st, self.st.mem[self.r], self.mem.add(Lin(self.t.vo - self.t.isz)), INT(self.t.vw)))
    def b(self, x): return x != BV(0, 8)
    def has(self): return z3.BoolVal(False) if self.empty else self.t.ghosts(self.st, self.r)[1]
    def val(self): return BV(0, self.t.vw) if self.empty else self.t.Va(self.st, self.r).read(self.t.ghosts(self.st, self.r)[2])
    def kptr(self): return BV(0, self.t.kw) if self.empty else self.t.K(self.st, self.r).read(self.t.ghosts(self.st, self.r)[2])
    def cnt(self): return BV(0) if self.empty else self.t.ghosts(self.st, self.r)[0]
    def inv(self):
        """[(name, formula)]"""
        t, st = self.t, self.st; f = []
        f.append(('flags are booleans', z3.And(z3.ULE(self.used, 1))))
        f.append(('load factor in range', z3.And(z3.UGE(self.lf, 25), z3.ULE(self.lf, 95))))
        if self.empty:
            f.append(('empty singleton', z3.And(self.cap == 1, self.size == 0, self.remap == 0, self.used == 0)))
            return f
        if self.r is None or not st.mem[self.r].alive: return [('block is live', z3.BoolVal(False))]
        if None in t.ghosts(st, self.r): return [('block is tracked', z3.BoolVal(False))]
        f.append(('capacity is a power of two', pow2(self.cap)))
        f.append(('resize threshold follows the load factor', self.remap == RF(self.cap, z64(self.lf))))
        f.append(('block holds capacity and the zero slot', z3.And(self.mem.o.term() == BV(t.isz), st.mem[self.r].size.term() == (self.cap + 1) * t.isz)))
        f.append(('size counts the entries', self.size == self.cnt() + z3.If(self.b(self.used), BV(1), BV(0))))
        f.append(('there is always a free slot', z3.And(z3.ULE(self.size, self.remap), z3.ULT(self.remap, self.cap))))
        f.append(('zero slot key', t.K(st, self.r).read(BV(0)) == 0))
        f.append(('probe sequences have no gap', t.probe(st, self.r)))
        l = t.linked(st, self.r); f.append(('observed key located', l[0])); f.append(('observed key occurs once', l[1]))
        for x in t.hashes(st, self.r): f.append(('stored hashes', x))
        return f

def mkmap(c, t, kinds=('heap', 'empty')):
    kind = c.choose('map', kinds); st = c.st
    size = c.bv('size', 32); lf = c.bv('lf', 32); remap = c.bv('remap', 32); used = c.bv('used', 8); oom = c.bv('oom', 8); found = c.bv('found', 8); cap = c.bv('cap', 32)
    if kind == 'heap':
        p = c.array('mem', t.it, z64(cap), 'heap', head=1)
        cnt = c.bv('g.count'); has = c.bv('g.has', 8) != 0; at = c.bv('g.at'); t.setghost(st, 'mem', cnt, has, at)
    else:
        g = c.eng.globptr(st, '@sc_map_empty_' + t.nm)
        p = c.eng.load(st, g.add(Lin(c.off('sc_map_' + t.nm, 'mem')[0])), PTR)
    o = c.struct('m', 'sc_map_' + t.nm, dict(mem=p, cap=cap, size=size, load_fac=lf, remap=remap, used=used, oom=oom, found=found))
    m = M(t, st, o)
    c.assume(z3.And(z3.ULE(oom, 1), z3.ULE(found, 1)))
    for n, f in m.inv(): c.assume(f)
    if kind == 'heap':
        c.assume(rffacts(m.cap, lf)); c.assume(z3.ULE(cnt, m.cap)); t.addprefix(st, 'mem')
    return o, M(t, st, o)

def setkey(c, t, kind):
    """the operation's key; the invariant of the pre-state is also available for it"""
    k = BV(0, t.kw) if kind == 'zero' else c.bv('key', t.kw)
    if kind != 'zero': c.assume(k != 0); t.key = k
    return k
def keyarg(t, k): return Ptr(None, Lin.of(k)) if t.s else k
def valarg(c, t):
    v = c.bv('value', t.vw)
    f = [x for x in c.mod.flat(c.mod.struct(t.it)) if x[0] == t.vo][0][1]
    return (Ptr(None, Lin.of(v)) if f.k == 'ptr' else v), v
def keylink(c, t, m):
    """the observed key is either the operation's key (then its presence is known) or any other key"""
    if c.choose('observed', ('the key', 'another')) == 'another': c.assume(t.q != t.sid(t.key)); return None, None
    c.assume(t.q == t.sid(t.key))
    if m.empty: return z3.BoolVal(False), BV(0)
    _, has, at = t.ghosts(c.st, m.r); K = t.K(c.st, m.r); c.st.hints.append((K.label, at))
    return has, at
def same(c, out, t, m, p, fields, name):
    g = [getattr(m, f) == getattr(p, f) for f in fields]
    g.append(z3.BoolVal(m.r == p.r and m.r is not None and out.st.mem[m.r].alive))
    if m.r == p.r: g.append(m.mem.o.term() == p.mem.o.term())
    c.ensure(out, name, z3.And(*g))
def allsame(c, out, t, m, p, name='contents unchanged'):
    if p.empty or m.r != p.r: c.ensure(out, name, z3.BoolVal(m.r == p.r)); return
    for o, a in out.st.mem[m.r].segs[0].arrs.items():
        b = p.st.mem[p.r].segs[0].arrs[o]
        c.ensure(out, name, All((a.label,), lambda x, a=a, b=b: z3.Implies(z3.ULE(x, p.cap), a.read(x) == b.read(x))))
def hints(c, out, t, m):
    if m.empty or m.r is None: return
    K = t.K(out.st, m.r); g = t.ghosts(out.st, m.r)
    if g[2] is not None: c.hint(out, K.label, g[2])
    for r, e in out.st.ghost.get('empties', ()): c.hint(out, K.label, e)
def inv(c, out, t, m):
    hints(c, out, t, m)
    for n, f in m.inv(): c.ensure(out, 'invariant: ' + n, f)
    live = [r for r, rs in out.st.mem.items() if rs.kind == 'heap' and rs.alive]
    c.ensure(out, 'no block is lost', z3.BoolVal(live == ([] if m.empty else [m.r])))
def bits(c, v): return c.eng.tobits(v)
def failed(out): return any(x[0] == 'alloc' and x[1] is None for x in out.st.trace)

OPT = dict(search='map', replay=False, tmo=60000, cand_ms=20000, assumptions=['cardinality facts about ghost counters (fewer used slots than slots leaves an empty one; the prefix count ends at the total)',
    'text keys are valid strings that stay unchanged while stored; strcmp and the hash see the same text (the hash function itself is covered by its own contract)', 'a map is initialised with sc_map_init before use and not used after sc_map_term'])
def make(nm, quick):
    Q = dict(OPT) if quick else dict(OPT, thorough_only=True); G = dict(OPT)
    @contract('C04', SRC, name='map_get_' + nm, **G)
    def get(c):
        t = T(c, nm); o, p = mkmap(c, t); kk = c.choose('key', ('other', 'zero')); k = setkey(c, t, kk)
        hk, at = keylink(c, t, p) if kk == 'other' else (None, None)
        for out in c.run('sc_map_get_' + nm, [o, keyarg(t, k)]):
            m = M(t, out.st, o); r = bits(c, out.ret)
            if kk == 'other':
                v = BV(0, t.vw) if p.empty or hk is None else z3.If(hk, t.Va(p.st, p.r).read(at), BV(0, t.vw)); h = hk
            else: h = p.b(p.used); v = z3.If(h, p.zval(), BV(0, t.vw))
            if h is not None: c.ensure(out, 'found exactly when present', m.b(m.found) == h); c.ensure(out, 'returns the current value, or zero', r == v)
            same(c, out, t, m, p, ('cap', 'size', 'lf', 'remap', 'used', 'oom'), 'map unchanged'); allsame(c, out, t, m, p)
    @contract('C04', SRC, name='map_put_' + nm, **Q)
    def put(c):
        t = T(c, nm); o, p = mkmap(c, t); kk = c.choose('key', ('other', 'zero')); k = setkey(c, t, kk); va, v = valarg(c, t)
        hk, at = keylink(c, t, p) if kk == 'other' else (None, None)
        for out in c.run('sc_map_put_' + nm, [o, keyarg(t, k), va]):
            m = M(t, out.st, o); r = bits(c, out.ret); oom = m.b(m.oom)
            oldv = (BV(0, t.vw) if p.empty or hk is None else z3.If(hk, t.Va(p.st, p.r).read(at), BV(0, t.vw))) if kk == 'other' else z3.If(p.b(p.used), p.zval(), BV(0, t.vw))
            h = hk if kk == 'other' else p.b(p.used)
            if not c.eng.feasible(out.st, z3.Not(oom)):
                c.ensure(out, 'fails only when memory ran out', z3.BoolVal(failed(out)) if failed(out) else z3.UGT(p.cap, (1 << 30)))
                same(c, out, t, m, p, ('cap', 'size', 'lf', 'remap', 'used', 'found'), 'failed put leaves the map as it was'); allsame(c, out, t, m, p, 'failed put leaves the contents as they were')
                c.ensure(out, 'failed put returns zero', r == 0)
                continue
            c.ensure(out, 'success is not reported as out of memory', z3.Not(oom)); c.ensure(out, 'no allocation failed', z3.BoolVal(not failed(out)))
            inv(c, out, t, m)
            if h is not None:
                c.ensure(out, 'found exactly when the key was present', m.b(m.found) == h); c.ensure(out, 'returns the previous value, or zero', r == oldv)
                c.ensure(out, 'size grows by one exactly for a new key', m.size == p.size + z3.If(h, BV(0), BV(1)))
            if kk == 'other':
                isk = t.q == t.sid(k)
                c.ensure(out, 'the key maps to the value', z3.Implies(isk, z3.And(m.has(), m.val() == v)))
                c.ensure(out, 'zero key unaffected', z3.And(m.used == p.used, z3.Implies(p.b(p.used), m.zval() == p.zval())))
            else:
                isk = z3.BoolVal(False)
                c.ensure(out, 'the zero key maps to the value', z3.And(m.used == 1, m.zval() == v))
            c.ensure(out, 'other keys stay present or absent', z3.Implies(z3.Not(isk), m.has() == p.has()))
            c.ensure(out, 'other keys keep key and value', z3.Implies(z3.And(z3.Not(isk), p.has()), z3.And(m.val() == p.val(), m.kptr() == p.kptr())))
    @contract('C04', SRC, name='map_del_' + nm, **Q)
    def dele(c):
        t = T(c, nm); o, p = mkmap(c, t); kk = c.choose('key', ('other', 'zero')); k = setkey(c, t, kk)
        hk, at = keylink(c, t, p) if kk == 'other' else (None, None)
        for out in c.run('sc_map_del_' + nm, [o, keyarg(t, k)]):
            m = M(t, out.st, o); r = bits(c, out.ret)
            oldv = (BV(0, t.vw) if p.empty or hk is None else z3.If(hk, t.Va(p.st, p.r).read(at), BV(0, t.vw))) if kk == 'other' else z3.If(p.b(p.used), p.zval(), BV(0, t.vw))
            h = hk if kk == 'other' else p.b(p.used)
            inv(c, out, t, m)
            if h is not None:
                c.ensure(out, 'found exactly when the key was present', m.b(m.found) == h); c.ensure(out, 'returns the removed value, or zero', r == oldv)
                c.ensure(out, 'size shrinks by one exactly for a present key', m.size == p.size - z3.If(h, BV(1), BV(0)))
            isk = (t.q == t.sid(k)) if kk == 'other' else z3.BoolVal(False)
            if kk == 'other':
                c.ensure(out, 'the key is gone', z3.Implies(isk, z3.Not(m.has())))
                c.ensure(out, 'zero key unaffected', z3.And(m.used == p.used, z3.Implies(p.b(p.used), m.zval() == p.zval())))
            else: c.ensure(out, 'the zero key is gone', m.used == 0)
            c.ensure(out, 'other keys stay present or absent', z3.Implies(z3.Not(isk), m.has() == p.has()))
            c.ensure(out, 'other keys keep key and value', z3.Implies(z3.And(z3.Not(isk), p.has()), z3.And(m.val() == p.val(), m.kptr() == p.kptr())))
            same(c, out, t, m, p, ('cap', 'lf', 'remap'), 'capacity unchanged')
    @contract('C04', SRC, name='map_misc_' + nm, **G)
    def misc(c):
        t = T(c, nm); op = c.choose('op', ('init', 'term', 'size', 'clear'))
        if op == 'init':
            o = c.struct('m', 'sc_map_' + nm); cap = c.bv('cap', 32); lf = c.bv('lf', 32)
            for out in c.run('sc_map_init_' + nm, [o, cap, lf]):
                okf = z3.Or(lf == 0, z3.And(z3.UGE(lf, 25), z3.ULE(lf, 95)))
                if not c.eng.feasible(out.st, out.ret):
                    c.ensure(out, 'fails only for a bad load factor or lack of memory', z3.BoolVal(True) if failed(out) else z3.Or(z3.Not(okf), z3.UGT(cap, 1 << 31)))
                    c.ensure(out, 'failed init keeps no block', z3.BoolVal(not [1 for rs in out.st.mem.values() if rs.kind == 'heap' and rs.alive])); continue
                c.ensure(out, 'load factor accepted', z3.And(out.ret, okf))
                m = M(t, out.st, o); inv(c, out, t, m)
                c.ensure(out, 'new map is empty', z3.And(m.size == 0, m.used == 0, z3.Not(m.has()), m.cnt() == 0))
            return
        o, p = mkmap(c, t)
        if op == 'term':
            for out in c.run('sc_map_term_' + nm, [o]):
                c.ensure(out, 'block released', z3.BoolVal(not [1 for rs in out.st.mem.values() if rs.kind == 'heap' and rs.alive]))
                m = M(t, out.st, o); c.ensure(out, 'map is empty', z3.And(z3.BoolVal(m.empty), m.size == 0, m.used == 0, m.cap == 1))
        elif op == 'size':
            for out in c.run('sc_map_size_' + nm, [o]):
                m = M(t, out.st, o); c.ensure(out, 'size', z64(out.ret) == p.size); same(c, out, t, m, p, ('cap', 'size', 'lf', 'remap', 'used', 'oom', 'found'), 'map unchanged'); allsame(c, out, t, m, p)
        else:
            for out in c.run('sc_map_clear_' + nm, [o]):
                m = M(t, out.st, o)
                same(c, out, t, m, p, ('cap', 'lf', 'remap'), 'capacity unchanged')
                c.ensure(out, 'no entries', z3.And(m.size == 0, m.used == 0))
                if not m.empty:
                    K = t.K(out.st, m.r); cnt = t.ghosts(out.st, m.r)[0]
                    none = All((K.label,), lambda x: z3.Implies(t.inr(x, m.cap), K.read(x) == 0))
                    c.use(out, All((K.label,), lambda x: z3.Implies(z3.And(t.inr(x, m.cap), K.read(x) != 0), cnt != 0)))     # a used slot makes the count nonzero
                    c.use(out, z3.Implies(cnt != 0, z3.And(z3.BoolVal(True), t.inr(w(t), m.cap), K.read(w(t)) != 0)))   # a nonzero count has a witness
                    c.hint(out, K.label, w(t)); c.lemma(out, 'every slot is empty', none)
                    c.use(out, cnt == 0)
                inv(c, out, t, m); c.ensure(out, 'observed key absent', z3.Not(m.has()))
def w(t):
    if not hasattr(t, '_w'): t._w = fresh('witness')
    return t._w
for nm in SCAL + STR: make(nm, nm in ('64', 's64'))

# ------------------------------------------------------------------ C05: iteration
def nested(c):
    """loops inside another loop of the same function are executed iteration by iteration (the inner loop of the macros runs its body at most once)"""
    def f(fn, hdr):
        g = c.eng.cfgs.get('@' + fn) or c.eng.cfgs.get(fn)
        return bool(g) and fn.startswith('it_') and any(hdr in b and h != hdr for h, b in g.loops.items())
    return f
def mkiter(nm, quick):
    Q = dict(search='map', replay=False, tmo=60000, cand_ms=20000, assumptions=['the prefix count of used slots ends at the map\'s entry count (definition of the ghost counter)', 'the loop body neither modifies the map nor leaves the loop'])
    if not quick: Q['thorough_only'] = True
    @contract('C05', 'verif:native/iter_map.c', name='map_iter_' + nm, **Q)
    def it(c):
        t = T(c, nm); o, p = mkmap(c, t); mode = c.choose('mode', ('pair', 'key', 'value')); e = c.eng
        e.opt['unroll'] = nested(c); e.opt['unrollmax'] = 6
        G = c.st.ghost; G['visits'] = BV(0); G['seen'] = BV(0); G['seenzero'] = BV(0); G['vq'] = BV(0, t.vw); G['vz'] = BV(0, t.vw)
        isq = lambda k: z3.And(k != 0, t.sid(k) == t.q)
        wv = c.bv('anyvalue', t.vw); G['seenw'] = BV(0); CW = lambda i: BV(0)
        if mode == 'value' and not p.empty:      # number of entries with an arbitrary value among the slots up to i
            CW = z3.Function('with!%d' % freshn(), z3.BitVecSort(64), z3.BitVecSort(64)); K, Va = t.K(c.st, p.r), t.Va(c.st, p.r)
            c.assume(CW(BV(0)) == 0)
            c.assume(All((K.label,), lambda x: z3.Implies(t.inr(x, p.cap), CW(x) == CW(x - 1) + z3.If(z3.And(K.read(x) != 0, Va.read(x) == wv), BV(1), BV(0)))))
        def visit(eng, st, a):
            g = st.ghost; g['visits'] = simp(g['visits'] + 1); eng.log((None, 'ghost', 'visits'))
            if mode != 'value':
                k = eng.tobits(a[0])
                g['seen'] = simp(g['seen'] + z3.If(isq(k), BV(1), BV(0))); g['seenzero'] = simp(g['seenzero'] + z3.If(k == 0, BV(1), BV(0)))
                if mode == 'pair':
                    v = eng.tobits(a[1]); g['vq'] = simp(z3.If(isq(k), v, g['vq'])); g['vz'] = simp(z3.If(k == 0, v, g['vz']))
            else:
                g['seenw'] = simp(g['seenw'] + z3.If(eng.tobits(a[0]) == wv, BV(1), BV(0))); eng.log((None, 'ghost', 'seenw'))
            for n in ('seen', 'seenzero', 'vq', 'vz'): eng.log((None, 'ghost', n))
            return [(st, None)]
        for n in ('pair', 'key', 'value'): e.models['vf_%s_%s' % (n, nm)] = visit
        def cands(L):
            out = []
            if not L.fn.startswith('it_'): return out
            for k in L.vars:
                if k[0] != 'phi' or L.kind[k] != 'int' or L.width[k] != 64: continue
                for off in (0, 1):
                    def pos(V, k=k, off=off): return V.cur(k) - off if off else V.cur(k)     # slots with index <= pos have been visited
                    n = p.cap
                    def rng(V, pos=pos): return z3.And(pos(V) >= -1, pos(V) <= n)
                    z0 = lambda V, pos=pos: z3.And(p.b(p.used), pos(V) >= 0)
                    C = t.prefix(c.st, p.r) if not p.empty else (lambda i: BV(0))
                    def nvis(V, pos=pos): return V.st.ghost['visits'] == z3.If(z0(V, pos), BV(1), BV(0)) + z3.If(pos(V) >= 0, C(pos(V)), BV(0))
                    def done(V, pos=pos):
                        if p.empty: return z3.BoolVal(False)
                        _, has, at = t.ghosts(V.st, p.r); return z3.And(has, pos(V) >= 0, z3.ULE(at, pos(V)))
                    def seen(V, pos=pos):
                        return V.st.ghost['seen'] == z3.If(done(V, pos), BV(1), BV(0))
                    out.append(('%s(-%d) in range' % (k[1], off), rng)); out.append(('visits counted by %s-%d' % (k[1], off), nvis))
                    if mode != 'value':
                        out.append(('observed key visited by %s-%d' % (k[1], off), seen))
                        out.append(('zero key visited by %s-%d' % (k[1], off), lambda V, pos=pos: V.st.ghost['seenzero'] == z3.If(z0(V, pos), BV(1), BV(0))))
                    else: out.append(('values counted by %s-%d' % (k[1], off), lambda V, pos=pos: V.st.ghost['seenw'] == z3.If(z3.And(z0(V, pos), p.zval() == wv), BV(1), BV(0)) + z3.If(pos(V) >= 0, CW(pos(V)), BV(0))))
                    if mode == 'pair':
                        out.append(('value visited by %s-%d' % (k[1], off), lambda V, pos=pos: z3.Implies(done(V, pos), V.st.ghost['vq'] == p.val())))
                        out.append(('zero value visited by %s-%d' % (k[1], off), lambda V, pos=pos: z3.Implies(z0(V, pos), V.st.ghost['vz'] == p.zval())))
            return out
        e.loop_cands.append(cands)
        for out in c.run('it_%s_%s' % (mode, nm), [o]):
            g = out.st.ghost
            c.ensure(out, 'the body runs once per entry', g['visits'] == p.size)
            if mode != 'value':
                c.ensure(out, 'an entry is visited exactly once, anything else never', g['seen'] == z3.If(p.has(), BV(1), BV(0)))
                c.ensure(out, 'the zero key is visited exactly when stored', g['seenzero'] == z3.If(p.b(p.used), BV(1), BV(0)))
            else: c.ensure(out, 'each value is visited once per entry that has it', g['seenw'] == z3.If(z3.And(p.b(p.used), p.zval() == wv), BV(1), BV(0)) + (BV(0) if p.empty else CW(p.cap)))
            if mode == 'pair':
                c.ensure(out, 'the entry is visited with its value', z3.Implies(p.has(), g['vq'] == p.val()))
                c.ensure(out, 'the zero key is visited with its value', z3.Implies(p.b(p.used), g['vz'] == p.zval()))
for nm in SCAL + STR: mkiter(nm, nm in ('64', 'int', 's64', 'str', '32'))

@contract('C04', SRC, name='map_texthash', search='map', replay=False, assumptions=['the hash of a text is a function of the text: the function reads nothing but the text (proved below) and C programs are deterministic'])
def texthash(c):
    s = c.cstr('text', c.bv('len'))
    c.eng.loop_cands.append(lambda L: [('%s advances by 8' % (k[1],), lambda V, k=k: (V.cur(k).o.term() - V.ent(k).o.term()) & 7 == 0) for k in L.vars if L.kind[k] == 'ptr'])
    for out in c.run('murmurhash', [s]):
        c.ensure(out, 'the hash does not depend on the address of the text', z3.BoolVal(s.r not in c.eng.bases))
        c.ensure(out, 'no state is read or written', z3.BoolVal(not out.st.trace and all(r == s.r or out.st.mem[r].kind == 'stack' or not out.st.mem[r].alive for r in out.st.mem)))
