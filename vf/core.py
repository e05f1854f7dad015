"""Symbolic execution of LLVM IR functions with loop invariants; generates and discharges proof obligations."""
import z3, time, itertools, os
from . import ir
from .ir import INT, PTR
from .mem import *

QUICK_MS = int(os.environ.get('VF_QUICK_MS', '3000'))
FULL_MS = int(os.environ.get('VF_FULL_MS', '60000'))

class All:
    """universally quantified fact: body(*vars) for BV64 vars drawn from index classes `labels`
    (tuple, one label or tuple-of-labels per variable)."""
    __slots__ = ('body', 'labels', 'name', 'rng', 'extra')
    def __init__(self, labels, body, name='', rng=None, extra=None):
        self.labels = tuple(l if isinstance(l, tuple) else (l,) for l in labels)
        self.body, self.name, self.rng, self.extra = body, name, rng, extra

class State:
    __slots__ = ('mem', 'pc', 'hyps', 'hints', 'ghost', 'trace', 'frees', 'bmc', 'note')
    def __init__(self):
        self.mem = {}; self.pc = []; self.hyps = []; self.hints = []; self.ghost = {}; self.trace = []; self.frees = 0; self.bmc = {}; self.note = []
    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.pc = list(self.pc); s.hyps = list(self.hyps); s.hints = list(self.hints)
        s.ghost = dict(self.ghost); s.trace = list(self.trace); s.frees = self.frees; s.bmc = dict(self.bmc); s.note = list(self.note)
        return s

class Frame:
    __slots__ = ('fn', 'cfg', 'depth', 'allocas', 'args', 'va')
    def __init__(self, fn, cfg, depth): self.fn, self.cfg, self.depth = fn, cfg, depth; self.allocas = []; self.args = []; self.va = []

class Obl:
    __slots__ = ('name', 'kind', 'fn', 'line', 'status', 'time', 'solver', 'model', 'st', 'goal', 'extra')
    def __init__(self, **k):
        for a in self.__slots__: setattr(self, a, k.get(a))

def tobool(x):
    if z3.is_bool(x): return x
    return x != BV(0, x.size())
def tobv1(x, w): return z3.If(x, BV(1, w), BV(0, w))

def split(g, n=0):
    """conjuncts of a goal: And, Implies(a, And), a == Concat per byte"""
    if isinstance(g, bool) or not z3.is_expr(g) or n > 3: return [g]
    k = g.decl().kind()
    if k == z3.Z3_OP_AND: return [x for c in g.children() for x in split(c, n + 1)]
    if k == z3.Z3_OP_IMPLIES:
        r = split(g.arg(1), n + 1)
        return [g] if len(r) == 1 else [z3.Implies(g.arg(0), x) for x in r]
    if k == z3.Z3_OP_EQ and z3.is_bv(g.arg(0)):
        a, b = g.arg(0), g.arg(1)
        if b.decl().kind() == z3.Z3_OP_CONCAT: a, b = b, a
        if a.decl().kind() == z3.Z3_OP_CONCAT and a.num_args() > 1:
            out = []; hi = a.size()
            for c in a.children():
                lo = hi - c.size(); out.append(c == z3.Extract(hi - 1, lo, b)); hi = lo
            return out
    return [g]

class Engine:
    def __init__(self, mod, mode='prove', **opt):
        self.mod = mod; self.mode = mode; self.cfgs = {}; self.bg = []; self.bases = {}; self.basebyid = {}
        self.obls = []; self.quiet = 0; self.writelogs = []; self.cmplogs = []
        self.loop_cands = []      # functions L -> [(name, lambda V: formula)]
        self.models = dict()      # external function models
        self.contracts = {}       # name -> callable(eng, st, args) -> [(st, ret)] used instead of body
        self.opt = dict(maxdepth=12, bmc=6, term=True, maxpaths=4000, alloc_fail=True, tmo=FULL_MS)
        self.opt.update(opt)
        self.solver_time = 0.0; self.nq = 0; self.backend = {}; self.glob = {}; self.line = 0; self.curfn = '?'
        self.used = set(); self.assumed = set(); self.inlined = set(); self.bounded = False; self.loops_seen = 0; self.loop_info = []
        self.addrtaken = {}; self.deadline = None; self.idx_round = self.opt.get('rounds', 2); self.fp_fact = None
        self._counted = {}; self.nfail = 0; self.choices = []; self.nodespace = None; self.incomplete = []
        from . import libc
        self.models.update(libc.MODELS)

    # ------------------------------------------------------------ solver
    def _solve(self, fs, ms, want_model=False, rl=False):
        if self.deadline and time.time() > self.deadline: raise TimeoutError('deadline')
        t0 = time.time(); stages = []
        if ms <= 500: stages = [('bb', ms)]
        else:
            stages = [('bb', 400), ('int', min(ms, 1500)), ('bb', ms)] if not self.opt.get('bbfirst') else [('bb', min(ms, self.opt['bbfirst'])), ('int', min(ms, 1500)), ('bb', ms)]
            if ms > 8000: stages.append(('int', ms))
        if want_model: stages = [('bb', ms)]
        r = z3.unknown
        for kind, lim in stages:
            if kind == 'int':
                s = z3.SimpleSolver(); s.set('bv.solver', 2)
            else: s = z3.Solver()
            s.set('timeout', int(lim))
            for f in fs: s.add(f)
            t = time.time()
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            dt = time.time() - t; self.nq += 1
            if kind == 'int' and r == z3.sat: r = z3.unknown      # only refutations of the integer encoding are used
            self.backend[kind] = self.backend.get(kind, 0) + (r != z3.unknown)
            if os.environ.get('VF_DUMP') and dt > 1:
                open('%s/q%d_%s_%.1f_%s.smt2' % (os.environ['VF_DUMP'], self.nq, kind, dt, r), 'w').write(s.to_smt2())
            if r != z3.unknown: break
        dt = time.time() - t0; self.solver_time += dt
        if os.environ.get('VF_SLOW') and dt > float(os.environ['VF_SLOW']):
            print('   slow query %.1fs %s (%d formulas) %s %s:%s' % (dt, r, len(fs), getattr(self, 'curname', ''), self.curfn, self.line), flush=True)
        if want_model: return r, (s.model() if r == z3.sat else None)
        return r

    def feasible(self, st, c):
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        self.curname = 'feasible'
        r = self._solve(st.pc + self.bgrel() + [c], QUICK_MS)
        return r != z3.unsat
    def bgrel(self): return self.bg

    def addhyp(self, st, f):
        """assume: Bool, All or list"""
        if f is None: return
        if isinstance(f, (list, tuple)):
            for x in f: self.addhyp(st, x)
        elif isinstance(f, All): st.hyps.append(f)
        else:
            f = simp(f)
            if z3.is_true(f): return
            st.pc.append(f)
            if z3.is_false(f): raise Dead()

    def collect(self, fs, acc, seen):
        """index terms (label -> {id: term}) of applications of labelled base arrays"""
        stack = list(fs)
        while stack:
            x = stack.pop(); k = x.get_id()
            if k in seen: continue
            seen[k] = x
            if not z3.is_app(x): continue
            if x.num_args() == 1:
                d = x.decl(); l = LABELS.get(d.get_id())
                if l is not None:
                    a = simp(x.arg(0))
                    acc.setdefault(l, {})[a.get_id()] = a
            stack.extend(x.children())

    def prove(self, st, goal, name='', ms=None, want_model=False):
        """returns (status, model) status in proved/failed/unknown"""
        if ms is None: ms = self.opt['tmo']
        if self.nfail >= 3: ms = min(ms, 5000)
        self.curname = name
        if isinstance(goal, (list, tuple)):
            for g in goal:
                r = self.prove(st, g, name, ms, want_model)
                if r[0] != 'proved': return r
            return ('proved', None)
        if not isinstance(goal, All):
            parts = split(goal)
            if len(parts) > 1: return self.prove(st, parts, name, ms, want_model)
        g, hints = self.skolem(st, goal)
        if z3.is_true(g): return ('proved', None)
        base = st.pc + self.bg + [z3.Not(g)]
        r = self._solve(base, QUICK_MS if st.hyps else ms, False)
        if r == z3.unsat: return ('proved', None)
        fs = list(base)
        if st.hyps:
            for new, last in self.instances(st, base, hints):
                fs += new
                r = self._solve(fs, ms if last else max(QUICK_MS, ms // 3))
                if r == z3.unsat: return ('proved', None)
        if r == z3.unknown:
            r = self.second(fs, ms)
            if r == z3.unsat: return ('proved', None)
        return ('failed' if r == z3.sat else 'unknown', None)

    def skolem(self, st, goal):
        hints = list(st.hints)
        if isinstance(goal, All):
            sk = [fresh('sk') for _ in goal.labels]
            for v, ls in zip(sk, goal.labels):
                for l in ls: hints.append((l, v))
            g = goal.body(*sk)
            if isinstance(g, (list, tuple)): g = z3.And(*g)
        else: g = goal
        return simp(g), hints

    def cefs(self, st, goal):
        """formulas whose model is a counterexample"""
        if isinstance(goal, (list, tuple)):
            for g in goal:
                if self.prove(st, g)[0] != 'proved': goal = g; break
            else: goal = goal[0]
        g, hints = self.skolem(st, goal)
        base = st.pc + self.bg + [z3.Not(g)]; fs = list(base)
        for new, last in self.instances(st, base, hints): fs += new
        return fs

    def instances(self, st, base, hints):
        inst = set(); seen = {}; acc = {}
        for l, t in hints:
            t = simp(t); acc.setdefault(l, {})[t.get_id()] = t
        pend = list(base)
        for rnd in range(self.idx_round):
            self.collect(pend, acc, seen)
            new = []
            for hi, h in enumerate(st.hyps):
                pools = []
                for ls in h.labels:
                    p = {}
                    for l in ls: p.update(acc.get(l, {}))
                    pools.append(list(p.values()))
                if len(pools) > 1:
                    tot = 1
                    for p in pools: tot *= len(p)
                    if tot > 6000: pools = [p[:int(6000 ** (1.0/len(pools)))] for p in pools]
                for tup in itertools.product(*pools):
                    k = (hi,) + tuple(t.get_id() for t in tup)
                    if k in inst: continue
                    inst.add(k)
                    try: b = h.body(*tup)
                    except Unsupported: continue
                    if isinstance(b, (list, tuple)): b = z3.And(*b)
                    b = simp(b)
                    if not z3.is_true(b): new.append(b); _keep_inst.append(tup)
            if not new: break
            pend = new
            yield new, rnd == self.idx_round - 1

    def second(self, fs, ms):
        """second opinion on unknown: QF_UFBV tactic solver"""
        if self.opt.get('nosecond'): return z3.unknown
        s = z3.SolverFor('QF_UFBV'); s.set('timeout', int(ms))
        for f in fs: s.add(f)
        t = time.time(); r = s.check(); self.solver_time += time.time() - t; self.nq += 1
        return r

    def oblige(self, st, goal, kind, name='', line=None, assume=True):
        """proof obligation; afterwards assumed"""
        r = None
        if not self.quiet:
            t = time.time()
            r, m = self.prove(st, goal, name)
            o = Obl(name=name, kind=kind, fn=self.curfn, line=line if line is not None else self.line, status=r, time=time.time() - t, model=m)
            self.obls.append(o)
            if r != 'proved':
                self.nfail += 1; o.st = st.clone(); o.goal = goal
                if self.opt.get('stop_on_fail'): raise StopIteration
                if os.environ.get('VF_DEBUG'): print('   FAIL', r, kind, name, self.curfn, self.line, flush=True)
        if assume and not (r == 'proved' and kind in ('memory', 'arithmetic')):
            if isinstance(goal, All): self.addhyp(st, goal)
            elif isinstance(goal, (list, tuple)): self.addhyp(st, list(goal))
            else: self.addhyp(st, goal)

    # ------------------------------------------------------------ memory
    def basevar(self, rid):
        b = self.bases.get(rid)
        if b is None:
            b = z3.BitVec('addr!' + rid, 64); self.bases[rid] = b; self.basebyid[b.get_id()] = rid
            al = self.opt.get('align', {}).get(rid, 16)
            self.bg.append(b != 0); self.bg.append(z3.ULT(b, BV(1 << 63)))
            if al > 1: self.bg.append(z3.URem(b, BV(al)) == 0 if al & (al-1) else (b & BV(al-1)) == 0)
        return b
    def addr(self, p):
        if isinstance(p, FnPtr): return self.basevar('fn.' + p.name)
        if p.r is None: return p.o.term()
        return Lin.of(self.basevar(p.r)).add(p.o).term()

    def newregion(self, st, name, size, kind='heap', label=None, segs=None, zero=False):
        rid = '%s#%d' % (name, freshn())
        st.mem[rid] = RegState(size if isinstance(size, Lin) else Lin.of(size), kind, label or name, segs, zero)
        return rid

    def mkseg(self, ty, start, count_one, label, zero=False, const_init=None, forcearr=False):
        """typed segment. count_one: scalar segment (single instance)"""
        fl = self.mod.flat(ty); tys = {}; stride = self.mod.size(ty)
        for o, t in fl: tys[o] = t
        if count_one and not forcearr: return Seg(start, stride, tys, None, {})
        arrs = {}
        multi = len(tys) > 1
        for o, t in tys.items():
            lab = label + ('.%d' % o if multi else '')
            arrs[o] = Arr.const(lab, width(t), 0) if zero else Arr.base(lab, width(t))
        return Seg(start, stride, tys, arrs, None)

    def reg(self, st, p, write=False):
        rs = st.mem.get(p.r)
        if rs is None: raise Unsupported('unknown region %s' % p.r)
        if write:
            rs = rs.clone(); st.mem[p.r] = rs
        return rs

    def settype(self, st, rid, ty):
        """give a type to an untyped region from the first typed access"""
        rs = st.mem[rid].clone(); st.mem[rid] = rs
        sz = self.mod.size(ty)
        if ty.k == 'arr':   # array: type of element
            el = ty
            while el.k == 'arr': el = el.el
            rs.segs = [self.mkseg(el, 0, False, rs.label, rs.zero)]
        elif ty.k == 'struct' and rs.size.isconst() and rs.size.c == sz:
            rs.segs = self.structsegs(ty, rs.label, rs.zero)
        elif ty.k == 'struct' and rs.size.isconst() is False and self._tail(ty):
            rs.segs = self.structsegs(ty, rs.label, rs.zero)
        else:
            rs.segs = [self.mkseg(ty, 0, rs.size.isconst() and rs.size.c == sz and ty.k != 'struct', rs.label, rs.zero)]
        hk = self.opt.get('ontype')
        if hk: hk(self, st, rid)
    def _tail(self, ty):
        fs = self.mod.fields(ty)
        return bool(fs) and fs[-1].k == 'arr' and fs[-1].n == 0

    def structsegs(self, ty, label, zero=False):
        """segments for one instance of struct ty: scalar fields plus array fields as own array segments"""
        segs = []; scal = Seg(0, self.mod.size(ty), {}, None, {})
        def walk(t, base):
            if t.k == 'struct':
                for o, f in zip(self.mod.layout(t)[0], self.mod.fields(t)): walk(f, base + o)
            elif t.k == 'arr' and (t.n > 4 or t.n == 0) or (t.k == 'arr' and t.el.k == 'int' and t.el.n == 8):
                el = t.el
                while el.k == 'arr': el = el.el
                s = self.mkseg(el, base, False, label + '@%d' % base, zero)
                s_n = self.mod.size(t)
                s.tys['__len'] = s_n if t.n else None
                segs.append(s)
            elif t.k == 'arr':
                for i in range(t.n): walk(t.el, base + i * self.mod.size(t.el))
            else:
                scal.tys[base] = t
                if zero: scal.scal[base] = self.zeroval(t)
        walk(ty, 0)
        return [scal] + segs

    def zeroval(self, t):
        if t.k == 'ptr': return NULL
        if t.k == 'double': return FV('bits', BV(0))
        return BV(0, width(t))

    def locate(self, st, rs, p, nbytes):
        """-> (seg index, index term or None, field offset)"""
        if rs.segs is None: raise Unsupported('untyped region %s' % p.r)
        o = p.o
        c = o.c - (1 << 64) if o.c >> 63 else o.c
        # candidate array segments (exact)
        if o.isconst():
            for i, s in enumerate(rs.segs):
                if s.scal is not None:
                    continue
                L = s.tys.get('__len', 0)
                hi = s.start + L if L else None
                if c >= s.start and (hi is None or c < hi):
                    if len(rs.segs) > 1 and L == 0: continue
                    d, f = divmod(c - s.start, s.stride)
                    return i, BV(d), f
            for i, s in enumerate(rs.segs):
                if s.scal is not None and 0 <= c < max(s.stride, 1): 
                    return i, None, c
            # negative/constant outside: array segment of single-seg region
            if len(rs.segs) == 1 and rs.segs[0].scal is None:
                s = rs.segs[0]; d, f = divmod(c - s.start, s.stride); return 0, BV(d), f
            return 0, None, c
        best = None
        for i, s in enumerate(rs.segs):
            if s.scal is not None: continue
            L = s.tys.get('__len', 0)
            dm = Lin(o.c - s.start, o.t).divmod(s.stride)
            if dm is None: continue
            if len(rs.segs) > 1:
                # choose by constant part: the segment whose start is the greatest <= c (symbolic part non-negative by bounds)
                key = (c >= s.start, s.start)
                if best is None or key > best[0]: best = (key, i, dm[0].term(), dm[1])
            else: best = ((True, 0), i, dm[0].term(), dm[1])
        if best is None: raise Unsupported('offset %s in %s' % (o, p.r))
        return best[1], best[2], best[3]

    def bounds(self, st, p, n, what):
        """obligation: access of n (int or Lin) bytes at p is inside a live region"""
        if p.r is None:
            self.oblige(st, z3.BoolVal(False), 'memory', '%s through null or unknown pointer' % what); raise Dead()
        rs = st.mem.get(p.r)
        if rs is None: raise Unsupported('unknown region %s' % p.r)
        if not rs.alive:
            self.oblige(st, z3.BoolVal(False), 'memory', '%s of freed memory %s' % (what, rs.label)); raise Dead()
        nl = n if isinstance(n, Lin) else Lin(n)
        if p.o.isconst() and nl.isconst() and rs.size.isconst():
            ok = p.o.c + nl.c <= rs.size.c
            if ok: return rs
        off = p.o.term(); sz = rs.size.term(); nt = nl.term()
        g = z3.And(z3.ULE(off, sz), z3.ULE(nt, sz - off))
        self.oblige(st, g, 'memory', '%s within bounds of %s' % (what, rs.label))
        # segment-local bound for array members
        return rs

    def resolve(self, st, p):
        """opaque pointer -> region pointer when its term is addr(region)+rest"""
        if isinstance(p, FnPtr): return p
        if p.r is not None: return p
        for k, (a, n) in p.o.t.items():
            if n == 1 and k in self.basebyid:
                rest = Lin(p.o.c, {q: v for q, v in p.o.t.items() if q != k})
                return Ptr(self.basebyid[k], rest)
        return p

    def load(self, st, p, ty, what='load'):
        p = self.resolve(st, p)
        if isinstance(p, FnPtr): raise Unsupported('load from function')
        if p.r is None and self.nodespace is not None: return self.nodespace.load(self, st, p, ty)
        if p.r is not None and st.mem.get(p.r) is not None and st.mem[p.r].kind == 'node': return self.nodespace.load(self, st, Ptr(None, Lin.of(self.addr(p))), ty)
        n = self.mod.size(ty)
        if ty.k in ('struct', 'arr'):
            if ty.k == 'struct': return Agg([self.load(st, p.add(Lin(o)), f, what) for o, f in zip(self.mod.layout(ty)[0], self.mod.fields(ty))])
            s = self.mod.size(ty.el); return Agg([self.load(st, p.add(Lin(i * s)), ty.el, what) for i in range(ty.n)])
        rs = self.bounds(st, p, n, what)
        return self.rawload(st, rs, p, ty)

    def rawload(self, st, rs, p, ty):
        if rs.segs is None:
            self.settype(st, p.r, ty if not (rs.size.isconst() and rs.size.c == self.mod.size(ty)) else ty); rs = st.mem[p.r]
        n = self.mod.size(ty)
        si, idx, fo = self.locate(st, rs, p, n); s = rs.segs[si]
        if idx is None:
            if fo in s.tys and (self.mod.size(s.tys[fo]) == n or (fo in s.scal and self.mod.size(s.tys[fo]) == n)):
                if fo not in s.scal:
                    # materialise an unconstrained initial value (uninitialised or symbolic)
                    rs2 = st.mem[p.r].clone(); st.mem[p.r] = rs2; s2 = rs2.segs[si]
                    s2.scal[fo] = self.freshval(s.tys[fo], '%s.%d' % (rs.label, fo)); s = s2
                return self.cast(s.scal[fo], ty)
            bs = [self.readbyte(st, p.add(Lin(i))) for i in range(n)]
            return self.frombytes(bs, ty)
        if fo in s.tys and self.mod.size(s.tys[fo]) == n:
            return self.frombits(s.arrs[fo].read(idx), ty)
        if s.stride == 1:
            bs = [s.arrs[0].read(simp(idx + BV(i))) for i in range(n)]
            return self.frombytes(bs, ty)
        bs = [self.readbyte(st, p.add(Lin(i))) for i in range(n)]
        return self.frombytes(bs, ty)

    def frombytes(self, bs, ty):
        t = bs[0] if len(bs) == 1 else simp(z3.Concat(*reversed(bs)))
        return self.frombits(t, ty)

    def freshval(self, ty, name):
        if ty.k == 'ptr': return Ptr(None, Lin.of(fresh(name)))
        if ty.k == 'double': return FV('bits', fresh(name))
        return fresh(name, width(ty))

    def tobits(self, v):
        if isinstance(v, (Ptr, FnPtr)): return self.addr(v)
        if isinstance(v, FV): return self.fbits(v)
        if z3.is_bool(v): return tobv1(v, 8)
        return v
    def fbits(self, v):
        if v.op == 'bits': return v.a[0]
        c = self.fconst(v)
        if c is not None:
            import struct
            return BV(struct.unpack('<Q', struct.pack('<d', c))[0])
        raise Unsupported('bits of symbolic double')
    def frombits(self, t, ty):
        if ty.k == 'ptr': return self.resolve(None, Ptr(None, Lin.of(t)))
        if ty.k == 'double': return FV('bits', t)
        if ty.k == 'int':
            if ty.n == 1: return simp(z3.Extract(0, 0, t) == BV(1, 1))
            if t.size() > ty.n: return simp(z3.Extract(ty.n - 1, 0, t))
            return t
        if ty.k == 'float': return t
        raise Unsupported('frombits %r' % ty)
    def cast(self, v, ty):
        if ty.k == 'ptr':
            if isinstance(v, (Ptr, FnPtr)): return v
            return self.frombits(self.tobits(v), ty)
        if ty.k == 'double':
            return v if isinstance(v, FV) else FV('bits', self.tobits(v))
        return self.frombits(self.tobits(v), ty)

    def readbyte(self, st, p):
        """byte at p (bounds already checked)"""
        rs = st.mem[p.r]
        if rs.segs is None:
            self.settype(st, p.r, INT(8)); rs = st.mem[p.r]
        si, idx, fo = self.locate(st, rs, p, 1); s = rs.segs[si]
        if idx is None:
            for o, t in s.tys.items():
                if isinstance(o, int) and o <= fo < o + self.mod.size(t):
                    if o not in s.scal:
                        rs2 = rs.clone(); st.mem[p.r] = rs2; s = rs2.segs[si]
                        s.scal[o] = self.freshval(t, '%s.%d' % (rs.label, o))
                    b = self.tobits(s.scal[o]); k = (fo - o) * 8
                    return simp(z3.Extract(k + 7, k, b))
            return fresh('pad', 8)
        for o, t in s.tys.items():
            if isinstance(o, int) and o <= fo < o + self.mod.size(t):
                b = s.arrs[o].read(idx); k = (fo - o) * 8
                return simp(z3.Extract(k + 7, k, b)) if b.size() > 8 else b
        return fresh('pad', 8)

    def log(self, key):
        for l in self.writelogs: l.add(key)

    def store(self, st, p, v, ty, what='store'):
        p = self.resolve(st, p)
        if p.r is None and self.nodespace is not None: return self.nodespace.store(self, st, p, v, ty)
        if p.r is not None and st.mem.get(p.r) is not None and st.mem[p.r].kind == 'node': return self.nodespace.store(self, st, Ptr(None, Lin.of(self.addr(p))), v, ty)
        if ty.k in ('struct', 'arr'):
            if ty.k == 'struct': it = list(zip(self.mod.layout(ty)[0], self.mod.fields(ty)))
            else: s = self.mod.size(ty.el); it = [(i * s, ty.el) for i in range(ty.n)]
            for i, (o, f) in enumerate(it): self.store(st, p.add(Lin(o)), v.v[i], f, what)
            return
        n = self.mod.size(ty)
        rs = self.bounds(st, p, n, what)
        if rs.const:
            self.oblige(st, z3.BoolVal(False), 'memory', 'write to constant object %s' % rs.label); raise Dead()
        self.rawstore(st, p, v, ty)

    def rawstore(self, st, p, v, ty):
        rs = st.mem[p.r]
        n = self.mod.size(ty)
        if rs.segs is None:
            self.settype(st, p.r, ty)
        rs = st.mem[p.r].clone(); st.mem[p.r] = rs
        si, idx, fo = self.locate(st, rs, p, n); s = rs.segs[si]
        if idx is None:
            if fo in s.tys and self.mod.size(s.tys[fo]) == n:
                s.scal[fo] = self.cast(v, s.tys[fo]); self.log((p.r, si, fo)); self.hook_scal(st, p, si, fo); return
            b = self.tobits(v)
            for i in range(n): self.writebyte(st, p.add(Lin(i)), simp(z3.Extract(i * 8 + 7, i * 8, b)) if n > 1 else b)
            return
        if fo in s.tys and self.mod.size(s.tys[fo]) == n:
            b = self.tobits(v)
            self.arrstore(st, p.r, rs, si, fo, idx, b); return
        b = self.tobits(v)
        if s.stride == 1:
            for i in range(n):
                self.arrstore(st, p.r, rs, si, 0, simp(idx + BV(i)), simp(z3.Extract(i * 8 + 7, i * 8, b)))
            return
        for i in range(n): self.writebyte(st, p.add(Lin(i)), simp(z3.Extract(i * 8 + 7, i * 8, b)))

    def hook_scal(self, st, p, si, fo): pass
    def arrstore(self, st, rid, rs, si, fo, idx, b):
        s = rs.segs[si]
        old = s.arrs[fo]
        s.arrs[fo] = old.store(idx, b); self.log((rid, si, fo))
        if s.stride == 1 and isnum(b) and b.as_long() == 0 and fo == 0:
            rs.nul = (rs.nul + ((si, idx),))[-6:]
        h = st.ghost.get(('count', rid, si, fo))
        if h is not None:   # ghost counter of nonzero entries
            o = old.read(idx); w = b.size()
            st.ghost[('count', rid, si, fo)] = simp(h + z3.If(b != BV(0, w), BV(1), BV(0)) - z3.If(o != BV(0, w), BV(1), BV(0)))
            self.log((rid, 'ghost', ('count', rid, si, fo)))
            self.addhyp(st, z3.Implies(o != BV(0, w), h != BV(0)))      # a nonzero entry makes the count nonzero
        hk = self.opt.get('arrhook')
        if hk: hk(self, st, rid, si, fo, idx, b, old)

    def bulk(self, st, rid, si, fo):
        """bulk write into an array: ghost facts about single stores no longer hold"""
        self.log((rid, si, fo))
        for k in [k for k in st.ghost if isinstance(k, tuple) and len(k) >= 4 and k[1] == rid and k[2] == si and k[3] == fo and k[0] != 'strlen']:
            del st.ghost[k]
    def writebyte(self, st, p, b):
        rs = st.mem[p.r].clone(); st.mem[p.r] = rs
        if rs.segs is None:
            self.settype(st, p.r, INT(8)); rs = st.mem[p.r]
        si, idx, fo = self.locate(st, rs, p, 1); s = rs.segs[si]
        for o, t in s.tys.items():
            if isinstance(o, int) and o <= fo < o + self.mod.size(t):
                n = self.mod.size(t); k = (fo - o) * 8
                if idx is None:
                    if o not in s.scal: s.scal[o] = self.freshval(t, 'u')
                    old = self.tobits(s.scal[o])
                else: old = s.arrs[o].read(idx)
                if n == 1: new = b
                else:
                    parts = []
                    if k + 8 < n * 8: parts.append(z3.Extract(n * 8 - 1, k + 8, old))
                    parts.append(b)
                    if k > 0: parts.append(z3.Extract(k - 1, 0, old))
                    new = simp(z3.Concat(*parts))
                if idx is None: s.scal[o] = self.frombits(new, t) if t.k != 'int' else new; self.log((p.r, si, o))
                else: self.arrstore(st, p.r, rs, si, o, idx, new)
                return

    # bulk operations --------------------------------------------------
    def copybytes(self, st, dst, src, n, move=False):
        """memcpy/memmove of n (Lin) bytes; bounds are obligations"""
        dst = self.resolve(st, dst); src = self.resolve(st, src)
        if n.isconst() and n.c == 0: return
        if dst.r is None or src.r is None:
            # zero-length copies through null are tolerated by every libc in use
            if self.feasible(st, n.term() != BV(0)):
                if dst.r is None: self.bounds(st, dst, n, 'memcpy destination')
                self.bounds(st, src, n, 'memcpy source')
            raise_if = None
            self.addhyp(st, n.term() == BV(0)); return
        rsd = self.bounds(st, dst, n, 'memcpy write'); rss = self.bounds(st, src, n, 'memcpy read')
        if rsd.const:
            self.oblige(st, z3.BoolVal(False), 'memory', 'write to constant object'); raise Dead()
        if not move and dst.r == src.r:
            d, s_, k = dst.o.term(), src.o.term(), n.term()
            self.oblige(st, z3.Or(k == BV(0), d == s_, z3.And(z3.ULE(k, d - s_), z3.ULE(d - s_, BV((1<<63)-1))), z3.And(z3.ULE(k, s_ - d), z3.ULE(s_ - d, BV((1<<63)-1)))), 'memory', 'memcpy operands do not overlap')
        rsd = st.mem[dst.r]; rss = st.mem[src.r]
        if rsd.segs is None and rss.segs is not None and len(rss.segs) == 1 and rss.segs[0].arrs is not None:
            s = rss.segs[0]; d = rsd.clone(); st.mem[dst.r] = d
            d.segs = [Seg(s.start, s.stride, dict(s.tys), {o: (Arr.const(a.label, a.w) if d.zero else Arr.base(a.label, a.w)) for o, a in s.arrs.items()})]
        elif rsd.segs is None and rss.segs is None:
            self.settype(st, dst.r, INT(8)); self.settype(st, src.r, INT(8))
        elif rsd.segs is None: 
            d = rsd.clone(); st.mem[dst.r] = d
            if n.isconst() and rsd.size.isconst() and rsd.size.c == n.c and len(rss.segs) >= 1 and src.o.isconst() and src.o.c == 0:
                d.segs = [Seg(s.start, s.stride, dict(s.tys), {o: Arr.base(a.label, a.w) for o, a in s.arrs.items()} if s.arrs is not None else None, {} if s.scal is not None else None) for s in rss.segs]
            else: self.settype(st, dst.r, INT(8))
        elif rss.segs is None: self.settype(st, src.r, INT(8))
        rsd = st.mem[dst.r].clone(); st.mem[dst.r] = rsd; rss = st.mem[src.r]
        if n.isconst() and n.c <= 4096 and self.smallcopy(st, dst, src, n.c): return
        # symbolic length: both single array segments of the same stride
        di, didx, dfo = self.locate(st, rsd, dst, 1); si, sidx, sfo = self.locate(st, rss, src, 1)
        ds, ss = rsd.segs[di], rss.segs[si]
        if didx is None or sidx is None or ds.stride != ss.stride or dfo != 0 or sfo != 0:
            if n.isconst() and n.c <= 64:
                bs = [self.readbyte(st, src.add(Lin(i))) for i in range(n.c)]
                for i, b in enumerate(bs): self.writebyte(st, dst.add(Lin(i)), b)
                return
            raise Unsupported('bulk copy between different layouts %s %s n=%s' % (dst, src, n))
        q = n.divmod(ds.stride)
        if q is None or q[1] != 0: raise Unsupported('bulk copy of partial elements')
        cnt = q[0].term()
        for o in list(ds.arrs):
            ds.arrs[o] = ds.arrs[o].copy(didx, cnt, ss.arrs[o], sidx); self.bulk(st, dst.r, di, o)
            st.hints.append((ds.arrs[o].label, didx))
        # a copied terminator is a terminator
        nn = rsd.nul
        for (sj, w) in rss.nul:
            if sj == si: nn = nn + ((di, simp(w - sidx + didx)),)
        rsd.nul = nn[-6:]

    def smallcopy(self, st, dst, src, n):
        """constant-size copy field by field when layouts agree; else byte by byte up to 64"""
        rsd = st.mem[dst.r]; rss = st.mem[src.r]
        i = 0; plan = []
        while i < n:
            try:
                si, sidx, sfo = self.locate(st, rss, src.add(Lin(i)), 1); di, didx, dfo = self.locate(st, rsd, dst.add(Lin(i)), 1)
            except Unsupported: return False
            ss, ds = rss.segs[si], rsd.segs[di]
            tS = ss.tys.get(sfo); tD = ds.tys.get(dfo)
            if tS is not None and tD is not None and self.mod.size(tS) == self.mod.size(tD) and i + self.mod.size(tS) <= n:
                plan.append((i, tS, tD)); i += self.mod.size(tS); continue
            # padding on both sides?
            def inpad(s, fo): return not any(isinstance(o, int) and o <= fo < o + self.mod.size(t) for o, t in s.tys.items() if o != '__len')
            if inpad(ss, sfo) and inpad(ds, dfo): i += 1; continue
            plan = None; break
        if plan is not None:
            if len(plan) > 64: return False
            vals = [(i, self.rawload(st, st.mem[src.r], src.add(Lin(i)), tS), tS) for i, tS, tD in plan]
            for i, v, t in vals: self.rawstore(st, dst.add(Lin(i)), v, t)
            return True
        if n <= 64:
            bs = [self.readbyte(st, src.add(Lin(i))) for i in range(n)]
            # whole-scalar target
            di, didx, dfo = self.locate(st, rsd, dst, n); t = rsd.segs[di].tys.get(dfo)
            if t is not None and self.mod.size(t) == n:
                self.rawstore(st, dst, self.frombytes(bs, t), t); return True
            for i, b in enumerate(bs): self.writebyte(st, dst.add(Lin(i)), b)
            return True
        return False

    def setbytes(self, st, dst, val, n):
        dst = self.resolve(st, dst)
        if n.isconst() and n.c == 0: return
        if dst.r is None:
            if self.feasible(st, n.term() != BV(0)): self.bounds(st, dst, n, 'memset')
            self.addhyp(st, n.term() == BV(0)); return
        rs = self.bounds(st, dst, n, 'memset'); rs = st.mem[dst.r]
        if rs.segs is None:
            if isnum(val) and val.as_long() == 0 and dst.o.isconst() and dst.o.c == 0 and n.isconst() and rs.size.isconst() and n.c == rs.size.c:
                r = rs.clone(); r.zero = True; st.mem[dst.r] = r; return
            self.settype(st, dst.r, INT(8))
        rs = st.mem[dst.r].clone(); st.mem[dst.r] = rs
        zero = isnum(val) and val.as_long() == 0
        if n.isconst() and dst.o.isconst():
            # scalar fields one by one
            lo, hi = dst.o.c, dst.o.c + n.c
            for si, s in enumerate(rs.segs):
                if s.scal is not None:
                    for o, t in s.tys.items():
                        if lo <= o and o + self.mod.size(t) <= hi:
                            if zero: s.scal[o] = self.zeroval(t)
                            else: s.scal[o] = self.frombits(simp(z3.Concat(*[val] * self.mod.size(t))) if self.mod.size(t) > 1 else val, t)
                            self.log((dst.r, si, o))
                        elif lo < o + self.mod.size(t) and o < hi:
                            for b in range(max(lo, o), min(hi, o + self.mod.size(t))): self.writebyte(st, Ptr(dst.r, Lin(b)), val)
                else:
                    L = s.tys.get('__len')
                    end = s.start + L if L else None
                    a = max(lo, s.start); b = hi if end is None else min(hi, end)
                    if a < b:
                        q1, r1 = divmod(a - s.start, s.stride); q2, r2 = divmod(b - s.start, s.stride)
                        if r1 or r2: raise Unsupported('memset of partial elements')
                        for o in s.arrs:
                            w = s.arrs[o].w
                            v = val if w == 8 else simp(z3.Concat(*[val] * (w // 8)))
                            s.arrs[o] = s.arrs[o].fill(BV(q1), BV(q2 - q1), v); self.bulk(st, dst.r, si, o)
            return
        si, idx, fo = self.locate(st, rs, dst, 1); s = rs.segs[si]
        if idx is None or fo != 0: raise Unsupported('memset layout')
        q = n.divmod(s.stride)
        if q is None or q[1] != 0: raise Unsupported('memset of partial elements')
        for o in s.arrs:
            w = s.arrs[o].w; v = val if w == 8 else simp(z3.Concat(*[val] * (w // 8)))
            s.arrs[o] = s.arrs[o].fill(idx, q[0].term(), v); self.bulk(st, dst.r, si, o)

    # ------------------------------------------------------------ globals
    def globptr(self, st, name):
        if name in self.mod.funcs or (name in self.mod.decls): return FnPtr(name)
        rid = 'g' + name
        if rid not in st.mem:
            g = self.mod.globals.get(name)
            if g is None: raise Unsupported('global ' + name)
            sz = self.mod.size(g.ty)
            rs = RegState(Lin(sz), 'global', name, None, False, g.const)
            st.mem[rid] = rs
            self.initglobal(st, rid, rs, g)
        return Ptr(rid, Lin(0))
    def initglobal(self, st, rid, rs, g):
        if g.init is not None and g.init[0] == 'str':
            rs.segs = [Seg(0, 1, {0: INT(8)}, {0: Arr.table(rs.label, 8, list(g.init[1]))})]
            z = [i for i, b in enumerate(g.init[1]) if b == 0]
            rs.nul = tuple((0, BV(i)) for i in z[-3:])
            return
        ov = self.opt.get('globals', {})
        if g.name in ov:
            ov[g.name](self, st, rid, rs, g); return
        useinit = g.const and g.init is not None or g.name in self.opt.get('initglobals', ())
        if g.ty.k == 'arr':
            el = g.ty
            while el.k == 'arr': el = el.el
            rs.segs = [self.mkseg(el, 0, False, rs.label, useinit)]
            if useinit and g.init[0] != 'zero': self._fillinit(st, rid, g.ty, g.init, 0)
        elif g.ty.k == 'struct':
            rs.segs = self.structsegs(g.ty, rs.label, useinit)
            if useinit and g.init[0] != 'zero': self._fillinit(st, rid, g.ty, g.init, 0)
        else:
            rs.segs = [self.mkseg(g.ty, 0, True, rs.label)]
            if useinit: self._fillinit(st, rid, g.ty, g.init, 0)
    def _fillinit(self, st, rid, ty, v, off):
        if v[0] in ('zero', 'undef'): return
        if v[0] == 'agg':
            offs = self.mod.layout(ty)[0] if ty.k == 'struct' else [i * self.mod.size(ty.el) for i in range(ty.n)]
            for (t, x), o in zip(v[1], offs): self._fillinit(st, rid, t, x, off + o)
            return
        if v[0] == 'str':
            for i, b in enumerate(v[1]): self.rawstore(st, Ptr(rid, Lin(off + i)), BV(b, 8), INT(8))
            return
        self.rawstore(st, Ptr(rid, Lin(off)), self.val(st, None, v, ty), ty)

    # ------------------------------------------------------------ values
    def val(self, st, env, v, ty):
        k = v[0]
        if k == 'reg': return env[v[1]]
        if k == 'int':
            if ty.n == 1: return z3.BoolVal(bool(v[1] & 1))
            return BV(v[1], ty.n)
        if k == 'null': return NULL
        if k == 'glob': return self.globptr(st, v[1])
        if k == 'fp': return FV('bits', BV(v[1]))
        if k in ('undef',):
            if ty.k == 'int': return freshb('undef') if ty.n == 1 else fresh('undef', ty.n)
            if ty.k == 'ptr': return Ptr(None, Lin.of(fresh('undef')))
            if ty.k == 'struct': return Agg([self.val(st, env, v, f) for f in self.mod.fields(ty)])
            if ty.k == 'arr': return Agg([self.val(st, env, v, ty.el) for _ in range(ty.n)])
            if ty.k == 'double': return FV('bits', fresh('undef'))
        if k == 'zero':
            if ty.k == 'struct': return Agg([self.val(st, env, v, f) for f in self.mod.fields(ty)])
            if ty.k == 'arr': return Agg([self.val(st, env, v, ty.el) for _ in range(ty.n)])
            if ty.k == 'int' and ty.n == 1: return z3.BoolVal(False)
            return self.zeroval(ty)
        if k == 'agg': return Agg([self.val(st, env, x, t) for t, x in v[1]])
        if k == 'str': return Agg([BV(b, 8) for b in v[1]])
        if k == 'cexpr':
            if v[1] == 'gep': return self.gep(st, env, v[2], v[3])
            if v[1] in ('inttoptr', 'ptrtoint', 'bitcast'):
                x = self.val(st, env, v[3], v[2])
                if v[4].k == 'ptr': return x if isinstance(x, (Ptr, FnPtr)) else self.frombits(x, PTR)
                return self.tobits(x)
        raise Unsupported('value %r' % (v,))

    def gep(self, st, env, et, args):
        base = self.val(st, env, args[0][1], PTR)
        if isinstance(base, FnPtr): raise Unsupported('gep on function')
        base = self.resolve(st, base)
        o = base.o; t = et
        for i, (ity, iv) in enumerate(args[1:]):
            x = self.val(st, env, iv, ity)
            if i == 0:
                o = o.add(self.sidx(x).mul(self.mod.size(et)))
            elif t.k == 'struct':
                n = x.as_long(); off = self.mod.layout(t)[0][n]; o = o.add(Lin(off)); t = self.mod.fields(t)[n]
            elif t.k == 'arr':
                t = t.el; o = o.add(self.sidx(x).mul(self.mod.size(t)))
            else: raise Unsupported('gep type')
        if base.r is not None:
            rs = st.mem.get(base.r)
            if rs is not None and rs.segs is None and et.k in ('struct', 'int', 'ptr', 'arr', 'double') and self.mod.size(et) >= 1:
                self.settype(st, base.r, et)
        return Ptr(base.r, o)
    def sidx(self, x):
        if x.size() == 64: return Lin.of(x)
        if isnum(x):
            v = x.as_signed_long(); return Lin(v)
        return Lin.of(simp(z3.SignExt(64 - x.size(), x)))

    # ------------------------------------------------------------ execution
    def cfg(self, fn):
        c = self.cfgs.get(fn.name)
        if c is None: c = self.cfgs[fn.name] = ir.CFG(fn)
        return c

    def call(self, st, name, args, depth=0):
        """call by name -> list of (state, ret)"""
        nm = name
        if nm in self.contracts:
            self.used.add('contract:' + nm[1:]); return self.contracts[nm](self, st, args)
        base = nm[1:]
        if base.startswith('llvm.'):
            from . import libc
            return libc.intrinsic(self, st, base, args)
        if base in self.models:
            self.used.add('model:' + base)
            return self.models[base](self, st, args)
        if nm in self.mod.funcs: return self.run(st, self.mod.funcs[nm], args, depth + 1)
        raise Unsupported('call to external function %s without a contract' % base)

    def run(self, st, fn, args, depth=0):
        if depth > self.opt['maxdepth']: raise Unsupported('call depth (recursion?) in %s' % fn.name)
        cfg = self.cfg(fn)
        if cfg.irreducible: raise Unsupported('irreducible control flow in %s' % fn.name)
        self.inlined.add(fn.name[1:])
        env = {}
        fr = Frame(fn, cfg, depth)
        for (t, n), a in zip(fn.params, args): env[n] = a
        fr.args = list(args); fr.va = list(args[len(fn.params):])
        pn = 0
        # unnamed params are %0.. but clang names them all
        prevfn = self.curfn; self.curfn = fn.name[1:]
        out = self.blocks(fr, [(st, env, fn.order[0], None, 0)], None)
        self.curfn = prevfn
        res = []
        for s, r in out['rets']:
            for a in env.get('__allocas', []) : pass
            res.append((s, r))
        return res

    def blocks(self, fr, items, body, header=None):
        """run work items; body: set of blocks (loop body) or None for the whole function.
        returns dict(rets=[(st,ret)], exits=[(st,env,target,prev)], backs=[(st,env,prev)])"""
        out = dict(rets=[], exits=[], backs=[])
        work = list(items); npaths = 0
        while work:
            st, env, blk, prev, ip = work.pop()
            npaths += 1
            if npaths > self.opt['maxpaths']: raise Unsupported('too many paths in %s' % fr.fn.name)
            try:
                self.step(fr, st, env, blk, prev, ip, body, header, work, out)
            except Dead:
                pass
        return out

    def edge(self, fr, st, env, src, dst, body, header, work, out):
        if body is not None:
            if dst == header: out['backs'].append((st, env, src)); return
            if dst not in body: out['exits'].append((st, env, dst, src)); return
        if dst in fr.cfg.loops and src not in fr.cfg.loops[dst] and self.mode != 'bmc':
            unr = self.opt.get('unroll')
            self.curfn = fr.fn.name[1:]
            if not (unr and unr(fr.fn.name[1:], dst)) and not self.counted(fr, st, env, src, dst):
                for (s, e, tgt, pv) in self.loop(fr, st, env, src, dst): 
                    self.edge(fr, s, e, pv, tgt, body, header, work, out)
                return
        if True:
            if dst in fr.cfg.loops:
                key = (fr.depth, fr.fn.name, dst)
                if src in fr.cfg.loops[dst]:
                    st.bmc[key] = st.bmc.get(key, 0) + 1
                    lim = self.opt['bmc'] if self.mode == 'bmc' else self.opt.get('unrollmax', 300)
                    if st.bmc[key] > lim:
                        if self.mode != 'bmc': raise Unsupported('loop does not unroll within %d iterations' % lim)
                        if self.feasible(st, z3.BoolVal(True)): self.incomplete.append(key)
                        return
                else: st.bmc[key] = 0
        work.append((st, env, dst, src, 0))

    def counted(self, fr, st, env, src, header):
        """loop whose header test compares a counter that starts and steps by constants with a constant: executed iteration by iteration"""
        key = (fr.fn.name, header)
        c = self._counted.get(key)
        if c is None:
            c = False; blk = fr.fn.blocks[header]; body = fr.cfg.loops[header]; defs = {}
            for b in body:
                for I in fr.fn.blocks[b]:
                    if I.res: defs[I.res] = I
            phis = {I.res: I for I in blk if I.op == 'phi'}; t = blk[-1]
            if t.op == 'br' and len(t.a) == 3 and t.a[0][0] == 'reg' and t.a[0][1] in defs and (t.a[1] not in body or t.a[2] not in body):
                ic = defs[t.a[0][1]]
                def cst(v): return v[0] == 'int'
                def strip(v):
                    while v[0] == 'reg' and v[1] in defs and defs[v[1]].op in ir.CAST: v = defs[v[1]].a[1]
                    return v
                if ic.op == 'icmp':
                    a, b = strip(ic.a[1]), ic.a[2]
                    if a[0] == 'reg' and a[1] in phis and cst(b):
                        ph = phis[a[1]]; ok = True
                        for v, bb in ph.a:
                            if bb in body:
                                d = defs.get(v[1]) if v[0] == 'reg' else None
                                if d is None or d.op not in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv') or strip(d.a[0]) != ('reg', a[1]) or not cst(d.a[1]): ok = False
                        if ok: c = a[1]
            self._counted[key] = c
        if not c: return False
        for I in fr.fn.blocks[header]:
            if I.res == c:
                for v, b in I.a:
                    if b == src:
                        x = self.val(st, env, v, I.ty)
                        return isnum(simp(x)) if not isinstance(x, (Ptr, FV)) and not z3.is_bool(x) else False
        return False
    def step(self, fr, st, env, blk, prev, ip, body, header, work, out):
        fn = fr.fn; ins = fn.blocks[blk]; n = len(ins)
        if ip == 0:
            # phis in parallel
            k = 0; vals = []
            while k < n and ins[k].op == 'phi':
                if ins[k].res in env.get('__skip', ()): k += 1; continue
                for v, b in ins[k].a:
                    if b == prev: vals.append((ins[k].res, self.val(st, env, v, ins[k].ty))); break
                else: raise Unsupported('phi without edge')
                k += 1
            for r, v in vals: env[r] = v
            if '__skip' in env: del env['__skip']
            ip = k
            while ip < n and ins[ip].op == 'phi': ip += 1
        self.curfn = fn.name[1:]
        while True:
            I = ins[ip]; op = I.op
            if I.line: self.line = I.line
            if op == 'br':
                if len(I.a) == 1:
                    self.edge(fr, st, env, blk, I.a[0], body, header, work, out); return
                c = simp(self.val(st, env, I.a[0], INT(1)))
                if z3.is_true(c): self.edge(fr, st, env, blk, I.a[1], body, header, work, out); return
                if z3.is_false(c): self.edge(fr, st, env, blk, I.a[2], body, header, work, out); return
                nc = simp(z3.Not(c))
                ft = self.feasible(st, c); ff = self.feasible(st, nc) if ft else True
                if ft and ff:
                    st2 = st.clone(); env2 = dict(env)
                    st.pc.append(c); st2.pc.append(nc)
                    self.edge(fr, st2, env2, blk, I.a[2], body, header, work, out)
                    self.edge(fr, st, env, blk, I.a[1], body, header, work, out)
                elif ft: st.pc.append(c); self.edge(fr, st, env, blk, I.a[1], body, header, work, out)
                else: st.pc.append(nc); self.edge(fr, st, env, blk, I.a[2], body, header, work, out)
                return
            if op == 'switch':
                v = self.val(st, env, I.a[0], I.ty); conds = []; bytgt = {}
                for cv, tgt in I.a[2]: bytgt.setdefault(tgt, []).append(v == BV(cv, I.ty.n))
                allc = [c for cs in bytgt.values() for c in cs]
                bydef = z3.And(*[z3.Not(c) for c in allc]) if allc else z3.BoolVal(True)
                lst = [(z3.Or(*cs), t) for t, cs in bytgt.items()]
                lst.append((bydef, I.a[1]))
                for c, t in lst:
                    c = simp(c)
                    if self.feasible(st, c):
                        s2 = st.clone(); 
                        if not z3.is_true(c): s2.pc.append(c)
                        self.edge(fr, s2, dict(env), blk, t, body, header, work, out)
                return
            if op == 'ret':
                r = self.val(st, env, I.a[0], I.ty) if I.a else None
                for rid in env.get('__allocas', ()):
                    if rid in st.mem:
                        rs = st.mem[rid].clone(); rs.alive = False; st.mem[rid] = rs
                out['rets'].append((st, r)); return
            if op == 'unreachable':
                self.oblige(st, z3.BoolVal(False), 'control', 'unreachable code is not reached'); return
            if op == 'call':
                res = self.docall(fr, st, env, I)
                self.curfn = fn.name[1:]
                if len(res) == 1:
                    st, r = res[0]
                    if I.res: env[I.res] = r
                    ip += 1; continue
                for s2, r in res:
                    e2 = dict(env)
                    if I.res: e2[I.res] = r
                    work.append((s2, e2, blk, prev, ip + 1))
                return
            self.simple(fr, st, env, I)
            if I.res is not None and isinstance(env.get(I.res), SelPtr):
                sp = env[I.res]; s2 = st.clone(); e2 = dict(env)
                s2.pc.append(simp(z3.Not(sp.c))); e2[I.res] = sp.b
                work.append((s2, e2, blk, prev, ip + 1))
                st.pc.append(sp.c); env[I.res] = sp.a
            ip += 1

    def docall(self, fr, st, env, I):
        callee, args = I.a
        av = []
        for t, v, at in args:
            if t.k == 'metadata': av.append(None); continue
            x = self.val(st, env, v, t)
            if 'byval' in at:   # copy of the aggregate
                ty = at['byval']; rid = self.newregion(st, 'byval', Lin(self.mod.size(ty)), 'stack', 'byval')
                st.mem[rid].segs = self.structsegs(ty, 'byval')
                self.copybytes(st, Ptr(rid, Lin(0)), x, Lin(self.mod.size(ty)))
                x = Ptr(rid, Lin(0))
            av.append(x)
        if callee[0] == 'glob': return self.call_va(fr, st, env, callee[1], av)
        f = env[callee[1]]
        if isinstance(f, Ptr): f = self.fnresolve(st, f)
        if isinstance(f, FnPtr): return self.call_va(fr, st, env, f.name, av)
        h = self.opt.get('fnptr')
        if h: return h(self, st, f, av)
        raise Unsupported('call through function pointer')
    def fnresolve(self, st, p):
        for k, (a, n) in p.o.t.items():
            if n == 1 and k in self.basebyid and self.basebyid[k].startswith('fn.') and len(p.o.t) == 1 and p.o.c == 0: return FnPtr(self.basebyid[k][3:])
        return p
    def call_va(self, fr, st, env, name, av):
        self._fr = fr; self._env = env
        line = self.line
        r = self.call(st, name, av, fr.depth)
        self.line = line
        return r

    def icmp(self, st, pr, a, b, ty):
        if ty.k == 'ptr' or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptrcmp(st, pr, a, b)
        if z3.is_bool(a) or z3.is_bool(b):
            if pr == 'eq': return a == b
            if pr == 'ne': return z3.Not(a == b)
            a, b = tobv1(a, 1), tobv1(b, 1)
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
             'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pr]
        for l in self.cmplogs: l.append((a, b))
        return f()
    def ptrcmp(self, st, pr, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr): e = z3.BoolVal(a.name == b.name)
            elif isinstance(a, FnPtr) and b.r is None and b.o.isconst() and b.o.c == 0 or isinstance(b, FnPtr) and isinstance(a, Ptr) and a.r is None and a.o.isconst() and a.o.c == 0: e = z3.BoolVal(False)
            else: e = self.addr(a) == self.addr(b)
            return e if pr == 'eq' else z3.Not(e)
        a = self.resolve(st, a); b = self.resolve(st, b)
        if a.r is not None and a.r == b.r:
            for l in self.cmplogs: l.append((a, b))
            x, y = a.o.term(), b.o.term()
            if pr in ('eq', 'ne'): e = x == y; return e if pr == 'eq' else z3.Not(e)
            # offsets of pointers into the same object: compare as signed so that one-before-start pointers order correctly
            return self.icmp(st, pr.replace('u', 's') if pr[0] == 'u' else pr, x, y, INT(64))
        if pr in ('eq', 'ne'):
            if a.r is not None and b.r is not None: e = z3.BoolVal(False)
            elif a.r is not None and b.o.isconst() and b.o.c == 0: e = z3.BoolVal(False)
            elif b.r is not None and a.o.isconst() and a.o.c == 0: e = z3.BoolVal(False)
            else: e = self.addr(a) == self.addr(b)
            return e if pr == 'eq' else z3.Not(e)
        return self.icmp(st, pr, self.addr(a), self.addr(b), INT(64))

    def simple(self, fr, st, env, I):
        op = I.op
        V = lambda x, t: self.val(st, env, x, t)
        if op == 'getelementptr': env[I.res] = self.gep(st, env, I.ty, I.a)
        elif op == 'load': env[I.res] = self.load(st, V(I.a[0], PTR), I.ty)
        elif op == 'store': self.store(st, V(I.a[1], PTR), V(I.a[0], I.ty), I.ty)
        elif op == 'icmp':
            env[I.res] = simp(self.icmp(st, I.a[0], V(I.a[1], I.ty), V(I.a[2], I.ty), I.ty))
        elif op in ir.BIN: env[I.res] = self.binop(st, I, V(I.a[0], I.ty), V(I.a[1], I.ty))
        elif op in ir.CAST: env[I.res] = self.castop(st, op, V(I.a[1], I.a[0]), I.a[0], I.ty)
        elif op == 'select':
            c = simp(V(I.a[0], INT(1))); a = V(I.a[1], I.ty); b = V(I.a[2], I.ty)
            env[I.res] = self.select(st, c, a, b, I.ty)
        elif op == 'alloca':
            cnt = I.a[0]
            n = 1
            if cnt is not None:
                c = V(cnt[1], cnt[0])
                if not isnum(c): raise Unsupported('variable length array')
                n = c.as_long()
            ty = I.ty
            rid = self.newregion(st, I.res[1:], Lin(self.mod.size(ty) * n), 'stack', I.res[1:])
            if ty.k == 'struct': st.mem[rid].segs = self.structsegs(ty, I.res[1:])
            elif ty.k == 'arr':
                el = ty
                while el.k == 'arr': el = el.el
                st.mem[rid].segs = [self.mkseg(el, 0, False, I.res[1:])]
            else: st.mem[rid].segs = [self.mkseg(ty, 0, True, I.res[1:])]
            env[I.res] = Ptr(rid, Lin(0))
            env['__allocas'] = env.get('__allocas', ()) + (rid,)
        elif op == 'extractvalue':
            v = V(I.a[0], I.ty)
            for k in I.a[1]: v = v.v[k]
            env[I.res] = v
        elif op == 'insertvalue':
            v = V(I.a[0], I.ty); w = V(I.a[2], I.a[1])
            def ins(a, idx):
                n = Agg(list(a.v))
                n.v[idx[0]] = w if len(idx) == 1 else ins(a.v[idx[0]], idx[1:])
                return n
            env[I.res] = ins(v, I.a[3])
        elif op == 'freeze': env[I.res] = V(I.a[0], I.ty)
        elif op == 'fcmp': env[I.res] = self.fcmp(st, I.a[0], V(I.a[1], I.ty), V(I.a[2], I.ty))
        elif op == 'fneg': env[I.res] = FV('fneg', V(I.a[0], I.ty))
        else: raise Unsupported('instruction ' + op)

    def select(self, st, c, a, b, ty):
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if ty.k == 'ptr':
            if not self.feasible(st, c): return b
            if not self.feasible(st, z3.Not(c)): return a
            a1 = self.resolve(st, a) if isinstance(a, Ptr) else a; b1 = self.resolve(st, b) if isinstance(b, Ptr) else b
            if isinstance(a1, Ptr) and isinstance(b1, Ptr) and a1.r == b1.r: return Ptr(a1.r, Lin.of(simp(z3.If(c, a1.o.term(), b1.o.term()))))
            return SelPtr(c, a1, b1)
        if ty.k == 'double': raise Unsupported('select double')
        if ty.k in ('struct', 'arr'): raise Unsupported('select aggregate')
        return simp(z3.If(c, a, b))

    def binop(self, st, I, a, b):
        op = I.op
        if op[0] == 'f': return FV(op, a, b)
        if z3.is_bool(a):
            if op == 'and': return simp(z3.And(a, b))
            if op == 'or': return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        w = a.size()
        if 'nsw' in I.flags and not (isnum(a) and isnum(b)):
            if op == 'add': g = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == 'sub': g = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            elif op == 'mul': g = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            else: g = None
            if g is not None: self.oblige(st, g, 'arithmetic', 'no signed overflow in %s' % op)
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = a * b
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            if not isnum(b) or b.as_long() == 0: self.oblige(st, b != BV(0, w), 'arithmetic', 'divisor is not zero')
            if op in ('sdiv', 'srem') and not (isnum(b) and b.as_signed_long() != -1):
                self.oblige(st, z3.Not(z3.And(a == BV(1 << (w - 1), w), b == BV(-1, w))), 'arithmetic', 'no overflow in division')
            r = {'udiv': z3.UDiv, 'sdiv': lambda x, y: x / y, 'urem': z3.URem, 'srem': z3.SRem}[op](a, b)
        elif op in ('shl', 'lshr', 'ashr'):
            if not isnum(b): self.oblige(st, z3.ULT(b, BV(w, w)), 'arithmetic', 'shift amount below width')
            r = {'shl': lambda x, y: x << y, 'lshr': z3.LShR, 'ashr': lambda x, y: x >> y}[op](a, b)
        elif op == 'and': r = a & b
        elif op == 'or': r = a | b
        elif op == 'xor': r = a ^ b
        return simp(r)

    def castop(self, st, op, v, t1, t2):
        if op == 'zext':
            if z3.is_bool(v): return simp(tobv1(v, t2.n))
            return simp(z3.ZeroExt(t2.n - v.size(), v))
        if op == 'sext':
            if z3.is_bool(v): return simp(z3.If(v, BV(-1, t2.n), BV(0, t2.n)))
            return simp(z3.SignExt(t2.n - v.size(), v))
        if op == 'trunc':
            if t2.n == 1: return simp(z3.Extract(0, 0, v) == BV(1, 1))
            return simp(z3.Extract(t2.n - 1, 0, v))
        if op == 'ptrtoint': return simp(self.addr(v)) if t2.n == 64 else simp(z3.Extract(t2.n - 1, 0, self.addr(v)))
        if op == 'inttoptr': return self.resolve(st, Ptr(None, Lin.of(v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v))))
        if op in ('bitcast', 'freeze'):
            if t2.k == 'double': return FV('bits', v)
            if t1.k == 'double': return self.fbits(v)
            return v
        if op in ('uitofp', 'sitofp', 'fpext', 'fptrunc'): return FV(op, v, t1.n if t1.k == 'int' else 0, t2.k)
        if op in ('fptoui', 'fptosi'): return self.fptoint(st, op, v, t2.n)
        raise Unsupported(op)

    # doubles ------------------------------------------------------------
    def fconst(self, v):
        import struct
        if v.op == 'bits':
            if isnum(v.a[0]): return struct.unpack('<d', struct.pack('<Q', v.a[0].as_long()))[0]
            return None
        if v.op in ('uitofp', 'sitofp'):
            if isnum(v.a[0]):
                n = v.a[0].as_long() if v.op == 'uitofp' else v.a[0].as_signed_long(); return float(n)
            return None
        if v.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.fconst(v.a[0]), self.fconst(v.a[1])
            if a is None or b is None: return None
            if v.op == 'fdiv' and b == 0: return None
            return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[v.op]()
        if v.op == 'fneg':
            a = self.fconst(v.a[0]); return None if a is None else -a
        if v.op in ('fpext',): return self.fconst(v.a[0])
        return None
    def fleaves(self, v, acc):
        if v.op in ('uitofp', 'sitofp'):
            if not isnum(v.a[0]): acc[v.a[0].get_id()] = v.a[0]
        elif v.op == 'bits':
            if not isnum(v.a[0]): raise Unsupported('symbolic double bits in arithmetic')
        else:
            for x in v.a:
                if isinstance(x, FV): self.fleaves(x, acc)
    def feval(self, v, asg):
        if v.op in ('uitofp', 'sitofp'):
            x = v.a[0]
            n = x if isnum(x) else asg[x.get_id()]
            if isnum(n) if not isinstance(n, int) else False: n = n.as_long()
            return float(n)
        if v.op == 'bits': return self.fconst(v)
        if v.op == 'fneg': return -self.feval(v.a[0], asg)
        if v.op == 'fpext': return self.feval(v.a[0], asg)
        a, b = self.feval(v.a[0], asg), self.feval(v.a[1], asg)
        return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[v.op]()
    def fptoint(self, st, op, v, w):
        c = self.fconst(v)
        if c is not None:
            n = int(c)
            lo, hi = (0, (1 << w) - 1) if op == 'fptoui' else (-(1 << (w-1)), (1 << (w-1)) - 1)
            if not (lo <= n <= hi): 
                self.oblige(st, z3.BoolVal(False), 'arithmetic', 'float to integer conversion in range')
            return BV(n, w)
        if self.fp_fact: return self.fp_fact(self, st, op, v, w)
        raise Unsupported('float to int conversion')
    def fcmp(self, st, pr, a, b):
        x, y = self.fconst(a), self.fconst(b)
        if x is None or y is None: raise Unsupported('fcmp')
        return z3.BoolVal({'oeq': x == y, 'olt': x < y, 'ole': x <= y, 'ogt': x > y, 'oge': x >= y, 'une': x != y, 'one': x != y, 'ult': x < y, 'ugt': x > y}[pr])

    # ------------------------------------------------------------ loops
    def loop(self, fr, st0, env0, prev, header):
        from . import loops
        return loops.do_loop(self, fr, st0, env0, prev, header)

class SelPtr:
    """pointer chosen by a condition between two regions; callers fork on it"""
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
_keep_inst = []
